"""Catalogue of functionals: how the library builds them, and what they mean.

A Spec pairs a factory of the library's operator with an independent reference of the
functional it documents: its value `f`, where available its exact proximal point `prox`,
for sets a violation measure `dist` (0 inside) and a generator of members `member`.
"""
import itertools

import numpy as np

import gen

TOL = 1e-9


class Spec:
    def __init__(self, name, make, n, f, prox=None, *, cvx=True, ind=False, dist=None,
                 member=None, thr=None, cplx=False, acc=0.0, grad=None, hasgrad=False,
                 arrays=None, cfg=None, isreal=True, vectau=False, ball_tol=0.0,
                 value=True, xmap=None, extreme=True, shape=None, dual_own=False, norm=False):
        self.name, self.make, self.n, self.f, self.prox = name, make, n, f, prox
        self.cvx, self.ind, self.dist, self.member = cvx, ind, dist, member
        self.thr = thr              # (tau) -> magnitude where the formula branches
        self.cplx = cplx            # complex inputs
        self.acc = acc              # extra absolute accuracy of an inner solver (relative to scale)
        self.grad, self.hasgrad = grad, hasgrad
        self.arrays = arrays or {}  # caller-owned arrays the operator was configured with
        self.cfg = cfg or {}
        self.vectau = vectau        # accepts a vector of steps
        self.value = value          # library value comparable with f
        self.extreme = extreme      # huge magnitudes are within the accuracy model
        self.shape = shape or (n,)
        self.ball_tol = ball_tol
        self.dual_own = dual_own
        self.norm = norm

    def draw(self, rng, tau=1.0, cplx=None, kind=None):
        thr = None
        if self.thr is not None:
            thr = self.thr(tau)
            if rng.random() < 0.3:
                thr = self.thr(1.0)
        c = self.cplx if cplx is None else cplx
        x = gen.vec(rng, self.n, 1.0, thr, c, kind, self.extreme)
        if self.member is not None and rng.random() < 0.35:
            y = self.member(rng)
            w = rng.choice([1.0, 1.0, 0.9, 1.1, 1.0 + 1e-6])
            x = (y * w).astype(x.dtype) if not np.iscomplexobj(y) else y * w
            if rng.random() < 0.4:
                x = x + gen.vec(rng, self.n, 0.3, None, c, "normal")
        return np.ascontiguousarray(x.reshape(self.shape))

    def obj(self, y, x, tau):
        return self.f(y) + float(np.sum(np.abs(y - x) ** 2)) / (2 * tau)

    def scale(self, *arrs):
        s = 1.0
        for a in arrs:
            if a is not None and np.size(a):
                s = max(s, float(np.max(np.abs(a))))
        for a in self.arrays.values():
            if isinstance(a, np.ndarray) and a.size and a.dtype.kind in "fc":
                fa = np.abs(a[np.isfinite(a)])
                if fa.size:
                    s = max(s, float(fa.max()))
        return s


def P():
    import pyproximal
    return pyproximal


def rdot(a, b):
    return float(np.real(np.vdot(a, b)))


def shrink(z, t):
    """prox of t*|.|_2 for a whole vector."""
    nz = float(np.linalg.norm(z))
    return z * 0 if nz <= t else z * (1 - t / nz)


def soft(z, t):
    r = np.abs(z)
    with np.errstate(all="ignore"):
        f = np.where(r > t, 1 - t / np.where(r > 0, r, 1), 0)
    return z * f


# --------------------------------------------------------------------------- convex norms
def g_l1(rng, cplx=False):
    n = gen.size(rng, 1, 9)
    sigma = gen.logu(rng, 0.05, 5)
    mode = int(rng.integers(0, 4))
    shape = (n,)
    if mode == 0:
        g, kw, arrs = None, {}, {}
    elif mode in (1, 2):
        g = gen.vec(rng, n, 1.0, None, cplx, "normal")
        kw, arrs = dict(g=g), dict(g=g)
    else:
        m = int(rng.integers(1, 4))
        sig = np.array([gen.logu(rng, 0.05, 5) for _ in range(n)])
        shape = (m, n)
        return Spec("L1[array sigma]", lambda: P().L1(sigma=sig), m * n,
                    lambda x: float(np.sum(sig * np.abs(x.reshape(shape)))),
                    lambda x, t: soft(x, t * sig), thr=lambda t: t * float(sig[0]), cplx=cplx,
                    arrays=dict(sigma=sig), cfg=dict(sigma=sig), shape=shape, dual_own=True)
    off = 0 if g is None else g
    return Spec("L1" + ("[g]" if g is not None else ""), lambda: P().L1(sigma=sigma, **kw), n,
                lambda x: sigma * float(np.sum(np.abs(x - off))),
                lambda x, t: off + soft(x - off, t * sigma),
                thr=lambda t: t * sigma, cplx=cplx, arrays=arrs, cfg=dict(sigma=sigma, g=g),
                vectau=True, dual_own=g is None, norm=g is None)


def g_l2(rng, cplx=False, which=None):
    import pylops
    n = gen.size(rng, 1, 7)
    sigma = gen.logu(rng, 0.05, 5)
    alpha = gen.logu(rng, 0.1, 4)
    b = gen.vec(rng, n, 1.0, None, cplx, "normal")
    q = gen.vec(rng, n, 1.0, None, cplx, "normal")
    useq = rng.random() < 0.5
    mode = int(rng.integers(0, 4)) if which is None else which
    qq = alpha * q if useq else np.zeros(n)
    kq = dict(q=q, alpha=alpha) if useq else {}
    arrs = dict(q=q) if useq else {}
    if mode == 0:
        return Spec("L2", lambda: P().L2(sigma=sigma, **kq), n,
                    lambda x: sigma / 2 * float(np.sum(np.abs(x) ** 2)) + (rdot(qq, x) if useq else 0.0),
                    lambda x, t: (x - t * qq) / (1 + t * sigma), cplx=cplx,
                    grad=lambda x: sigma * x + qq, hasgrad=True, arrays=arrs,
                    cfg=dict(sigma=sigma, q=useq, alpha=alpha), vectau=True)
    if mode == 1:
        arrs["b"] = b
        return Spec("L2[b]", lambda: P().L2(b=b, sigma=sigma, **kq), n,
                    lambda x: sigma / 2 * float(np.sum(np.abs(x - b) ** 2)) + (rdot(qq, x) if useq else 0.0),
                    lambda x, t: (x + t * sigma * b - t * qq) / (1 + t * sigma), cplx=cplx,
                    grad=lambda x: sigma * (x - b) + qq, hasgrad=True, arrays=arrs,
                    cfg=dict(sigma=sigma, q=useq, alpha=alpha), vectau=True)
    m = int(rng.integers(1, 8))
    A = gen.mat(rng, m, n, cplx)
    b = gen.vec(rng, m, 1.0, None, cplx, "normal")
    arrs.update(b=b, A=A)
    AH = A.conj().T

    def exact(x, t):
        return np.linalg.solve(np.eye(n) + t * sigma * (AH @ A), x + t * sigma * (AH @ b) - t * qq)

    if mode == 2:
        ds = [None, "numpy", "scipy", "factorize"][int(rng.integers(0, 4))]
        Op = gen.dense(A)

        def make():
            return P().L2(Op=Op, b=b, sigma=sigma, densesolver=ds, **kq)
        nm, acc = f"L2[explicit {ds}]", 1e-8
    else:
        solver = ["legacy", "cg", "cgls"][int(rng.integers(0, 3))]
        warm = bool(rng.random() < 0.5)
        Op = gen.free(A)
        kws = {}
        if solver == "legacy":
            kws = dict(atol=1e-13, btol=1e-13)
        elif solver == "cg":
            kws = dict(tol=1e-26)
        elif solver == "cgls":
            kws = dict(tol=1e-26)
        niter = 20 * n + 60

        def make():
            return P().L2(Op=Op, b=b, sigma=sigma, solver=solver, niter=niter, warm=warm,
                          kwargs_solver=dict(kws), **kq)
        nm, acc = f"L2[free {solver}]", 2e-6
    return Spec(nm, make, n,
                lambda x: sigma / 2 * float(np.sum(np.abs(A @ x - b) ** 2)) + (rdot(qq, x) if useq else 0.0),
                exact, cplx=cplx, acc=acc, grad=lambda x: sigma * (AH @ (A @ x - b)) + qq, hasgrad=True,
                arrays=arrs, cfg=dict(sigma=sigma, q=useq, alpha=alpha, m=m, n=n), extreme=mode == 2)


def g_l2conv(rng, cplx=False):
    """Circular model: as many transform samples as unknowns."""
    dims = [None, None, (4, 3), (3, 5), (2, 3, 4)][int(rng.integers(0, 5))]
    sigma = gen.logu(rng, 0.1, 4)
    if dims is None:
        n = int(rng.integers(2, 9))
        d, shp = -1, (n,)
    else:
        d = int(rng.integers(0, len(dims)))
        shp = tuple(dims)
        n = int(np.prod(dims))
    L = shp[d]
    nh = int(rng.integers(1, L + 1))
    ch = cplx and rng.random() < .6
    h = gen.cplx_noise(rng, (nh,)) if ch else rng.standard_normal(nh)
    b = gen.cplx_noise(rng, shp) if cplx and rng.random() < .6 else rng.standard_normal(shp)
    kw = {} if dims is None else dict(dims=dims, dir=d)
    C = np.zeros((L, L), dtype=h.dtype)
    for i in range(L):
        for j in range(nh):
            C[i, (i - j) % L] += h[j]

    def apply(M, x):
        return np.moveaxis(np.tensordot(M, np.moveaxis(x.reshape(shp), d, 0), axes=1), 0, d)

    def f(x):
        return sigma / 2 * float(np.sum(np.abs(apply(C, x) - b) ** 2))

    def prox(x, t):
        K = np.eye(L) + t * sigma * (C.conj().T @ C)
        r = x.reshape(shp) + t * sigma * apply(C.conj().T, b)
        return apply(np.linalg.inv(K), r).ravel()

    bb = b if dims is None else b
    return Spec("L2Convolve", lambda: P().L2Convolve(h, bb, nfft=L, sigma=sigma, **kw), n, f, prox,
                grad=lambda x: sigma * apply(C.conj().T, apply(C, x) - b).ravel(), hasgrad=True,
                arrays=dict(h=h, b=b), cfg=dict(sigma=sigma, dims=dims, dir=d, h=h), acc=1e-9, cplx=cplx)


def g_l21(rng, cplx=False):
    nd = gen.size(rng, 1, 4, 20)
    k = gen.size(rng, 1, 5, 40)
    sigma = gen.logu(rng, 0.05, 5)

    def f(x):
        return sigma * float(np.sum(np.linalg.norm(x.reshape(nd, k), axis=0)))

    def prox(x, t):
        X = x.reshape(nd, k)
        return np.stack([shrink(X[:, j], t * sigma) for j in range(k)], axis=1).ravel()
    return Spec("L21", lambda: P().L21(ndim=nd, sigma=sigma), nd * k, f, prox,
                thr=lambda t: t * sigma, cplx=cplx, cfg=dict(ndim=nd, k=k, sigma=sigma), dual_own=True, norm=True)


def g_l21l1(rng, cplx=False):
    nd = gen.size(rng, 1, 4, 20)
    k = gen.size(rng, 1, 5, 40)
    sigma = gen.logu(rng, 0.05, 5)
    rho = float(rng.choice([0.0, 0.2, 0.5, 0.8, 1.0]))
    flat = rng.random() < 0.3
    shape = (nd,) if flat else (nd, k)
    n = nd if flat else nd * k

    def f(x):
        return rho * sigma * float(np.sum(np.abs(x))) + \
            (1 - rho) * sigma * float(np.sum(np.linalg.norm(x.reshape(nd, -1), axis=0)))

    def prox(x, t):
        X = soft(x, t * sigma * rho).reshape(nd, -1)
        return np.stack([shrink(X[:, j], t * sigma * (1 - rho)) for j in range(X.shape[1])], axis=1).reshape(shape)
    return Spec("L21_plus_L1", lambda: P().L21_plus_L1(sigma=sigma, rho=rho), n, f, prox,
                thr=lambda t: t * sigma, cplx=cplx, cfg=dict(sigma=sigma, rho=rho, shape=shape), shape=shape, norm=True)


def g_huber(rng, cplx=False):
    n = gen.size(rng, 1, 7)
    al = gen.logu(rng, 0.05, 5)

    def f(x):
        a = np.abs(x)
        return float(np.sum(np.where(a <= al, a ** 2 / (2 * al), a - al / 2)))

    def prox(x, t):
        r = np.abs(x)
        return np.where(r > al + t, x - t * np.exp(1j * np.angle(x)) if np.iscomplexobj(x) else x - t * np.sign(x),
                        x * (al / (al + t)))
    return Spec("Huber", lambda: P().Huber(alpha=al), n, f, prox,
                thr=lambda t: al + t if rng.random() < .7 else al, cplx=cplx, cfg=dict(alpha=al))


def g_hubercirc(rng, cplx=False):
    n = gen.size(rng, 1, 7)
    al = gen.logu(rng, 0.05, 5)

    def f(x):
        a = float(np.linalg.norm(x))
        return a ** 2 / (2 * al) if a <= al else a - al / 2

    def prox(x, t):
        r = float(np.linalg.norm(x))
        return x * (al / (al + t)) if r <= al + t else x * (1 - t / r)
    return Spec("HuberCircular", lambda: P().HuberCircular(alpha=al), n, f, prox,
                thr=lambda t: (al + t) / np.sqrt(n), cplx=cplx, cfg=dict(alpha=al))


def g_euclid(rng, cplx=False):
    n = gen.size(rng, 1, 7)
    s = gen.logu(rng, 0.05, 5)
    return Spec("Euclidean", lambda: P().Euclidean(sigma=s), n,
                lambda x: s * float(np.linalg.norm(x)), lambda x, t: shrink(x, t * s),
                thr=lambda t: t * s / np.sqrt(n), cplx=cplx, cfg=dict(sigma=s),
                grad=lambda x: s * x / np.linalg.norm(x), hasgrad=True, dual_own=True, norm=True)


def g_quadratic(rng, cplx=False):
    n = gen.size(rng, 1, 7)
    mode = int(rng.integers(0, 4))
    b = gen.vec(rng, n, 1.0, None, cplx, "normal")
    c = float(rng.standard_normal())
    if mode == 3:
        useb = rng.random() < 0.7
        bb = b if useb else np.zeros(n)
        return Spec("Quadratic[linear]" if useb else "Quadratic[const]",
                    lambda: P().Quadratic(b=b, c=c) if useb else P().Quadratic(c=c), n,
                    lambda x: rdot(bb, x) + c, lambda x, t: x - t * bb,
                    grad=lambda x: bb, hasgrad=True, arrays=dict(b=b) if useb else {}, cfg=dict(c=c), cplx=cplx)
    A = gen.spd(rng, n, cplx=cplx)
    useb = rng.random() < 0.7
    bb = b if useb else np.zeros(n)
    expl = mode < 2
    Op = gen.dense(A) if expl else gen.free(A)
    return Spec("Quadratic" + ("" if expl else "[free]"),
                lambda: P().Quadratic(Op=Op, b=b if useb else None, c=c, niter=400), n,
                lambda x: rdot(x, A @ x) / 2 + rdot(bb, x) + c,
                lambda x, t: np.linalg.solve(np.eye(n) + t * A, x - t * bb),
                grad=lambda x: A @ x + bb, hasgrad=True, arrays=dict(b=b, A=A) if useb else dict(A=A),
                cfg=dict(c=c, n=n), acc=1e-9 if expl else 1e-4, extreme=expl, cplx=cplx)


def _svd_prox(x, dim, fun):
    X = x.reshape(dim)
    U, s, Vh = np.linalg.svd(X, full_matrices=False)
    return ((U * fun(s)) @ Vh).ravel()


def g_nuclear(rng, cplx=False, weighted=None):
    dim = (gen.size(rng, 1, 5, 20), gen.size(rng, 1, 5, 20))
    k = min(dim)
    s = gen.logu(rng, 0.05, 5)
    w = rng.random() < 0.4 if weighted is None else weighted
    if w:
        sig = np.sort(np.exp(rng.uniform(np.log(0.1), np.log(4), k)))   # documented use: non-decreasing
        longer = int(rng.integers(0, 3))
        if longer:
            sig = np.concatenate([sig, sig[-1] + np.arange(1, longer + 1)])
        if sig.size == 1:
            sig = np.array([sig[0], sig[0] + 1])
        sk = sig[:k]
        return Spec("Nuclear[weights]", lambda: P().Nuclear(dim, sigma=sig), dim[0] * dim[1],
                    lambda x: float(np.sum(sk * np.linalg.svd(x.reshape(dim), compute_uv=False))),
                    lambda x, t: _svd_prox(x, dim, lambda v: np.maximum(v - t * sk, 0)),
                    cvx=bool(np.allclose(sk, sk[0])), thr=lambda t: t * float(sk[0]), cplx=cplx,
                    arrays=dict(sigma=sig), cfg=dict(dim=dim, sigma=sig), acc=1e-9)
    return Spec("Nuclear", lambda: P().Nuclear(dim, sigma=s), dim[0] * dim[1],
                lambda x: s * float(np.sum(np.linalg.svd(x.reshape(dim), compute_uv=False))),
                lambda x, t: _svd_prox(x, dim, lambda v: np.maximum(v - t * s, 0)),
                thr=lambda t: t * s, cplx=cplx, cfg=dict(dim=dim, sigma=s), acc=1e-9, norm=True)


_nl = {}


def nonlinear_class():
    if _nl:
        return _nl["c"]

    class LogCosh(P().Nonlinear):
        """User-defined smooth convex term solved by Newton steps on the library's hooks."""
        w = 1.0

        def fun(self, x):
            return self.w * float(np.sum(np.logaddexp(x, -x)))

        def grad(self, x):
            return self.w * np.tanh(x)

        def optimize(self):
            x = np.array(self.x0, dtype=float)
            tau = self.tau
            for _ in range(self.niter):
                fp, gp = self._fungradprox(x, tau)
                g2 = self._gradprox(x, tau)
                f2 = self._funprox(x, tau)
                assert np.allclose(gp, g2) and np.isclose(fp, f2)
                if np.max(np.abs(g2)) < 1e-13 * (1 + 1 / tau):
                    break
                H = self.w / np.cosh(np.clip(x, -300, 300)) ** 2 + 1 / tau
                step = g2 / H
                a = 1.0
                while a > 1e-10 and self._funprox(x - a * step, tau) > f2 - 1e-3 * a * float(g2 @ step) + 1e-15 * abs(f2):
                    a /= 2
                x = x - a * step
            return x
    _nl["c"] = LogCosh
    return LogCosh


def g_nonlinear(rng, cplx=False):
    n = gen.size(rng, 1, 6)
    w = gen.logu(rng, 0.2, 4)
    x0 = rng.standard_normal(n)
    warm = bool(rng.random() < 0.5)

    def make():
        c = nonlinear_class()(x0=x0, niter=100, warm=warm)
        c.w = w
        return c

    def prox(x, t):   # bisection on the monotone optimality condition
        lo, hi = x - t * w - 1e-9, x + t * w + 1e-9
        for _ in range(200):
            mid = (lo + hi) / 2
            pos = mid - x + t * w * np.tanh(mid) > 0
            hi = np.where(pos, mid, hi)
            lo = np.where(pos, lo, mid)
        return (lo + hi) / 2
    return Spec("Nonlinear", make, n, lambda x: w * float(np.sum(np.logaddexp(x, -x))), prox,
                grad=lambda x: w * np.tanh(x), hasgrad=True, arrays=dict(x0=x0), cfg=dict(w=w, warm=warm),
                acc=1e-6, extreme=False)


SIMPLE = None


def g_simple(rng, cplx=False, n=None):
    """A cheap closed-form convex functional of prescribed size (for combinators)."""
    for _ in range(500):
        k = int(rng.integers(0, 6))
        s = [g_l1, g_l2, g_huber, g_hubercirc, g_euclid, g_box][k](rng, cplx) if k != 1 else \
            g_l2(rng, cplx, int(rng.integers(0, 2)))
        if (n is None or s.n == n) and len(s.shape) == 1 and not (cplx and s.name.startswith("Box")):
            return s
    raise RuntimeError("no spec of that size")


def g_orthogonal(rng, cplx=False):
    import pylops
    partial = bool(rng.random() < 0.5)
    if partial:
        m = int(rng.integers(1, 6))
        n = m + int(rng.integers(0, 4))
        alpha = float(rng.choice([1.0, 0.25, 2.0, 5.0]))
        Q = np.sqrt(alpha) * gen.orth(rng, n, cplx)[:m]
    else:
        m = n = int(rng.integers(1, 6))
        alpha = 1.0
        Q = gen.orth(rng, n, cplx)
    Q = np.ascontiguousarray(Q)
    base = g_simple(rng, cplx, n=m)
    useb = rng.random() < 0.6
    b = gen.vec(rng, m, 1.0, None, cplx, "normal")
    Op = gen.linop(rng, Q)
    off = b if useb else 0.0

    def prox(x, t):
        y = Q @ x + off
        return x + Q.conj().T @ (base.prox(y, alpha * t) - y) / alpha
    return Spec(f"Orthogonal[{base.name}{' partial' if partial else ''}]",
                lambda: P().Orthogonal(base.make(), Op, partial=partial, b=b if useb else None, alpha=alpha),
                n, lambda x: base.f(Q @ x + off), prox, thr=base.thr, cplx=cplx,
                arrays=dict(base.arrays, b=b, Q=Q) if useb else dict(base.arrays, Q=Q),
                cfg=dict(base.cfg, base=base.name, alphaQ=alpha), acc=1e-9,
                cvx=base.cvx, value=not base.ind)


def g_vstack(rng, cplx=False):
    import pylops
    k = int(rng.integers(1, 4))
    bases = []
    while len(bases) < k:
        s = g_simple(rng, cplx)
        if not s.ind:
            bases.append(s)
    nn = [s.n for s in bases]
    N = sum(nn)
    mode = rng.random() < 0.5
    if mode:
        ends = np.cumsum(nn)
        idx = [np.arange(e - s, e) for e, s in zip(ends, nn)]
        kw = dict(nn=list(nn))
    else:
        perm = rng.permutation(N)
        ends = np.cumsum(nn)
        idx = [perm[e - s:e] for e, s in zip(ends, nn)]
        idx = [np.sort(i) for i in idx] if rng.random() < .5 else idx
        kw = dict(restr=[pylops.Restriction(N, i, dtype="complex128" if cplx else "float64") for i in idx])

    def prox(x, t):
        y = x.copy()
        for s, i in zip(bases, idx):
            y[i] = s.prox(x[i], t)
        return y

    allg = all(s.hasgrad for s in bases)

    def grad(x):
        y = x.copy()
        for s, i in zip(bases, idx):
            y[i] = s.grad(x[i])
        return y
    arrs = {}
    for j, s in enumerate(bases):
        arrs.update({f"{kk}{j}": v for kk, v in s.arrays.items()})
    return Spec("VStack[" + ",".join(s.name for s in bases) + (" nn" if mode else " restr") + "]",
                lambda: P().VStack([s.make() for s in bases], **kw), N,
                lambda x: sum(s.f(x[i]) for s, i in zip(bases, idx)), prox,
                thr=bases[0].thr, cplx=cplx, grad=grad if allg else None, hasgrad=allg, arrays=arrs,
                cfg=dict(nn=nn, idx=[list(map(int, i)) for i in idx]))


# ------------------------------------------------------------------------------ convex sets
def g_box(rng, cplx=False):
    n = gen.size(rng, 1, 7)
    mode = int(rng.integers(0, 5))
    if mode == 0:
        lo, hi = -gen.logu(rng, 0.1, 3), gen.logu(rng, 0.1, 3)
    elif mode == 1:
        lo, hi = float(rng.uniform(-2, 2)), np.inf
    elif mode == 2:
        lo, hi = -np.inf, float(rng.uniform(-2, 2))
    elif mode == 3:
        lo = rng.uniform(-3, 1, n)
        hi = lo + rng.choice([0.0, 0.5, 2.0], n)
    else:
        lo, hi = -np.inf, np.inf
        if rng.random() < .5:
            lo = float(rng.uniform(0, 2))
            hi = lo + gen.logu(rng, .1, 3)
    arrs = dict(lower=lo, upper=hi) if mode == 3 else {}

    def member(r):
        a = np.broadcast_to(np.where(np.isfinite(lo), lo, np.minimum(hi, 0) - 3 if np.isfinite(hi).all() else -3.0), (n,))
        b = np.broadcast_to(np.where(np.isfinite(hi), hi, np.maximum(lo, 0) + 3 if np.isfinite(lo).all() else 3.0), (n,))
        u = r.random(n)
        if r.random() < 0.3:
            u = np.round(u)
        return np.minimum(np.maximum(a + u * (b - a), lo), hi)
    return Spec("Box", lambda: P().Box(lower=lo, upper=hi), n,
                lambda x: 0.0 if np.all((x >= lo - 1e-9 * (1 + np.abs(x))) & (x <= hi + 1e-9 * (1 + np.abs(x)))) else np.inf,
                lambda x, t: np.where(x < lo, lo, np.where(x > hi, hi, x)), ind=True,
                dist=lambda x: float(np.max(np.maximum(np.maximum(lo - x, x - hi), 0))),
                member=member, arrays=arrs, cfg=dict(lower=lo, upper=hi))


def simplex_exact(v, r):
    """Exact projection on {x>=0, sum x = r} by sorting."""
    u = np.sort(v)[::-1]
    c = np.cumsum(u)
    k = np.arange(1, v.size + 1)
    # compensated choice of the active set
    cond = u - (c - r) / k > 0
    rho = int(np.max(np.nonzero(cond)[0])) if np.any(cond) else 0
    th = (c[rho] - r) / (rho + 1)
    return np.maximum(v - th, 0)


def l1ball_exact(x, r):
    a = np.abs(x)
    if a.sum() <= r:
        return x.copy()
    p = simplex_exact(a.ravel(), r).reshape(a.shape)
    ph = np.where(a > 0, x / np.where(a > 0, a, 1), 0)
    return ph * p


def g_simplex(rng, cplx=False, engine=None):
    mode = int(rng.integers(0, 3))
    radius = gen.logu(rng, 0.1, 6)
    eng = engine or "numpy"
    if mode == 0:
        n = gen.size(rng, 1, 8)
        dims, axis = None, -1
        rows = [np.arange(n)]
    else:
        dims = (gen.size(rng, 1, 5, 20), gen.size(rng, 1, 5, 20))
        axis = int(rng.choice([0, 1, -1]))
        n = dims[0] * dims[1]
        I = np.arange(n).reshape(dims)
        rows = list(I.T) if axis == 0 else list(I)
    xtol = 1e-13
    kw = {} if dims is None else dict(dims=dims, axis=axis)
    nn = n if dims is None else dims[0]   # ignored when dims is given

    def prox(x, t):
        y = x.astype(float).copy()
        for i in rows:
            y[i] = simplex_exact(x[i], radius)
        return y

    def dist(x):
        return float(max(max(abs(x[i].sum() - radius), -x[i].min()) for i in rows))

    def member(r):
        y = np.zeros(n)
        for i in rows:
            w = r.random(len(i)) * (r.random(len(i)) < 0.7)
            w = w + (w.sum() == 0)
            y[i] = radius * w / w.sum()
        return y
    return Spec(f"Simplex[{eng}{'' if dims is None else ' dims'}]",
                lambda: P().Simplex(n, radius, maxiter=300, ftol=1e-13, xtol=xtol, engine=eng, **kw), n,
                lambda x: 0.0 if dist(x) <= 1e-7 * max(1, radius) else np.inf, prox, ind=True, dist=dist, member=member,
                cfg=dict(radius=radius, dims=dims, axis=axis, rows=len(rows)), acc=1e-8, ball_tol=1e-7, extreme=False)


def g_l1ball(rng, cplx=False):
    n = gen.size(rng, 1, 8)
    r = float(rng.choice([0.0, 0.3, 1.0, 2.5, 10.0]))
    xtol = 1e-13

    def member(g):
        x = gen.vec(g, n, 1.0, None, cplx, "sparse")
        s = np.abs(x).sum()
        return x * (r * g.choice([1.0, 0.99, 0.5]) / s) if s > 0 else x
    return Spec("L1Ball", lambda: P().L1Ball(n, r, maxiter=300, xtol=xtol), n,
                lambda x: 0.0 if np.abs(x).sum() <= r + 1e-7 else np.inf,
                lambda x, t: l1ball_exact(x, r), ind=True, dist=lambda x: max(0.0, float(np.abs(x).sum()) - r),
                member=member, thr=lambda t: max(r, .1) / n, cplx=cplx, cfg=dict(radius=r, n=n), acc=1e-8,
                ball_tol=1e-4, extreme=False)


def g_euclball(rng, cplx=False):
    n = gen.size(rng, 1, 7)
    r = float(rng.choice([0.0, 0.5, 1.0, 3.0]))
    c = gen.vec(rng, n, 1.0, None, cplx, "normal") if rng.random() < 0.6 else float(rng.choice([0.0, 1.0]))

    def prox(x, t):
        d = x - c
        nd = float(np.linalg.norm(d))
        return x.copy() if nd <= r else c + d * (r / nd)

    def member(g):
        d = gen.vec(g, n, 1.0, None, cplx, "normal")
        return c + d * (r * g.choice([0.99, 0.5, 0.0]) / max(np.linalg.norm(d), 1e-300))
    return Spec("EuclideanBall", lambda: P().EuclideanBall(c, r), n,
                lambda x: 0.0 if np.linalg.norm(x - c) <= r + 1e-8 else np.inf, prox, ind=True,
                dist=lambda x: max(0.0, float(np.linalg.norm(x - c)) - r), member=member,
                cplx=cplx, arrays=dict(center=c) if isinstance(c, np.ndarray) else {}, cfg=dict(center=c, radius=r))


def g_nucball(rng, cplx=False):
    dim = (gen.size(rng, 1, 5, 20), gen.size(rng, 1, 5, 20))
    r = float(rng.choice([0.3, 1.0, 4.0]))

    def nuc(x):
        return float(np.linalg.svd(x.reshape(dim), compute_uv=False).sum())

    def member(g):
        x = gen.vec(g, dim[0] * dim[1], 1.0, None, cplx, "normal")
        return x * (r * g.choice([0.99, 0.5]) / nuc(x))
    return Spec("NuclearBall", lambda: P().NuclearBall(dim, r, maxiter=300, xtol=1e-13), dim[0] * dim[1],
                lambda x: 0.0 if nuc(x) <= r + 1e-7 else np.inf,
                lambda x, t: _svd_prox(x, dim, lambda s: l1ball_exact(s, r)), ind=True,
                dist=lambda x: max(0.0, nuc(x) - r), member=member, cplx=cplx,
                cfg=dict(dim=dim, radius=r), acc=1e-8, ball_tol=1e-5, extreme=False)


def g_halfspace(rng, cplx=False):
    n = gen.size(rng, 1, 7)
    w = rng.standard_normal(n) * gen.logu(rng, 0.2, 5)
    if rng.random() < 0.3:
        w = np.round(w) + (np.arange(n) == 0)
        if not np.any(w):
            w[0] = 1.0
    b = float(rng.choice([0.0, 1.0, -2.0, 0.37]))

    def prox(x, t):
        e = float(w @ x) - b
        return x - max(e, 0.0) / float(w @ w) * w

    def member(g):
        x = g.standard_normal(n) * 2
        e = float(w @ x) - b
        return x - (max(e, 0) + 0.01) / float(w @ w) * w
    return Spec("HalfSpace", lambda: P().HalfSpace(w, b), n,
                lambda x: 0.0 if w @ x <= b + 1e-8 * (1 + np.abs(w * x).sum()) else np.inf, prox, ind=True,
                dist=lambda x: max(0.0, float(w @ x) - b) / float(np.linalg.norm(w)), member=member,
                arrays=dict(w=w), cfg=dict(w=w, b=b))


def g_affine(rng, cplx=False):
    n = gen.size(rng, 2, 8)
    m = int(rng.integers(1, n))
    A = gen.mat(rng, m, n, cplx, cond=4.0) * gen.logu(rng, 0.5, 3)
    z = gen.vec(rng, n, 1.0, None, cplx, "normal")
    b = A @ z
    AH = A.conj().T
    G = np.linalg.inv(A @ AH)
    Op = gen.linop(rng, A)

    def prox(x, t):
        return x - AH @ (G @ (A @ x - b))

    def member(g):
        return prox(gen.vec(g, n, 1.0, None, cplx, "normal"), 1)
    return Spec("AffineSet", lambda: P().AffineSet(Op, b, 10 * n), n,
                lambda x: 0.0 if np.linalg.norm(A @ x - b) <= 1e-4 * (1 + np.linalg.norm(x)) else np.inf, prox,
                ind=True, dist=lambda x: float(np.linalg.norm(A @ x - b)) / float(np.linalg.norm(A, 2)), member=member,
                cplx=cplx, arrays=dict(A=A, b=b), cfg=dict(m=m, n=n), acc=2e-4, ball_tol=1e-3, extreme=False)


def g_hankel(rng, cplx=False):
    dim = (gen.size(rng, 1, 6, 20), gen.size(rng, 1, 6, 20))
    I = np.add.outer(np.arange(dim[0]), np.arange(dim[1]))

    def prox(x, t):
        X = x.reshape(dim)
        Y = np.zeros(dim)
        for k in range(dim[0] + dim[1] - 1):
            Y[I == k] = X[I == k].mean()
        return Y.ravel()
    return Spec("Hankel", lambda: P().Hankel(dim), dim[0] * dim[1],
                lambda x: 0.0 if np.abs(prox(x, 1) - x).max() <= 1e-7 * (1 + np.abs(x).max()) else np.inf, prox,
                ind=True, dist=lambda x: float(np.abs(prox(x, 1) - x).max()),
                member=lambda g: g.standard_normal(dim[0] + dim[1] - 1)[I].ravel(), cfg=dict(dim=dim))


def _hildreth(x, N, bnd, iters=20000):
    """Exact-ish projection on {N y <= bnd} by dual coordinate ascent (small problems)."""
    lam = np.zeros(len(bnd))
    G = N @ N.T
    d = np.diag(G)
    r = N @ x - bnd
    for it in range(iters):
        mx = 0.0
        for i in range(len(bnd)):
            g = r[i] - G[i] @ lam
            new = max(0.0, lam[i] + g / d[i])
            mx = max(mx, abs(new - lam[i]))
            lam[i] = new
        if mx < 1e-14:
            break
    return x - N.T @ lam


def g_intersection(rng, cplx=False):
    k = int(rng.integers(2, 4))
    n = int(rng.integers(1, 4))
    mat = rng.random() < 0.5
    s = float(rng.choice([0.1, 0.5, 1.0, 2.0]))
    S = None
    while mat:
        S = rng.uniform(0.1, 1.5, (k, k))
        S = np.maximum(S, S.T)
        S = (S + S.T) / 2
        # almost redundant bounds make the documented iteration arbitrarily slow
        if k < 3 or min(abs(S[0, 1] + S[1, 2] - S[0, 2]), abs(S[0, 1] + S[0, 2] - S[1, 2]), abs(S[0, 2] + S[1, 2] - S[0, 1])) > .15:
            break
    Sm = S if mat else s * np.ones((k, k))
    N, bnd = [], []
    for a in range(k - 1):
        for c in range(a + 1, k):
            e = np.zeros(k)
            e[a], e[c] = 1, -1
            N += [e, -e]
            bnd += [Sm[a, c]] * 2
    N, bnd = np.array(N), np.array(bnd)

    def prox(x, t):
        X = x.reshape(k, n)
        return np.stack([_hildreth(X[:, j], N, bnd, 3000) for j in range(n)], axis=1).ravel()

    def dist(x):
        return float(np.max(np.maximum(N @ x.reshape(k, n) - bnd[:, None], 0)))

    def member(g):
        base = g.standard_normal(n)
        return (base[None, :] + g.uniform(-.5, .5, (k, n)) * Sm.min() * .99).ravel()
    return Spec("Intersection", lambda: P().Intersection(k, n, S if mat else s, niter=3000, tol=1e-12), k * n,
                lambda x: 0.0 if dist(x) <= 1e-6 else np.inf, prox, ind=True, dist=dist, member=member,
                arrays=dict(sigma=S) if mat else {}, cfg=dict(k=k, n=n, sigma=S if mat else s), acc=1e-6, ball_tol=1e-6,
                extreme=False)


def g_genint(rng, cplx=False):
    n = int(rng.integers(1, 5))
    k = int(rng.integers(1, 4))
    z = rng.standard_normal(n)
    projs, N, bnd, descr = [], [], [], []
    for j in range(k):
        if rng.random() < 0.5:
            w = rng.standard_normal(n)
            w /= max(np.linalg.norm(w), 1e-3)
            b = float(w @ z + rng.uniform(0.05, 1.0))
            projs.append((lambda w=w, b=b: P().projection.HalfSpaceProj(w, b)))
            N.append(w)
            bnd.append(b)
            descr.append(("half", w, b))
        else:
            lo = z - rng.uniform(0.05, 1, n)
            hi = z + rng.uniform(0.05, 1, n)
            projs.append((lambda lo=lo, hi=hi: P().projection.BoxProj(lo, hi)))
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1
                N += [e, -e]
                bnd += [hi[i], -lo[i]]
            descr.append(("box", lo, hi))
    N, bnd = np.array(N), np.array(bnd)
    par = bool(rng.random() < 0.5)

    def prox(x, t):
        return _hildreth(x, N, bnd)

    def dist(x):
        return float(np.max(np.maximum(N @ x - bnd, 0)))
    return Spec(f"GenericIntersectionProx[{k}{' par' if par else ''}]",
                lambda: P().GenericIntersectionProx([q() for q in projs], niter=20000, tol=1e-11, use_parallel=par), n,
                lambda x: 0.0 if dist(x) <= 1e-6 else np.inf, prox, ind=True, dist=dist,
                member=lambda g: z + 0.0, cfg=dict(n=n, k=k, sets=descr), acc=2e-5, ball_tol=1e-9, extreme=False)


# ------------------------------------------------------------------------------- non-convex
def scalar_min(phi, x, tau, extra=()):
    """Global minimiser value of phi(z) + (z-x)^2/(2 tau) over z in [0, |x|] (dense + refinement)."""
    a = abs(x)
    zs = np.unique(np.concatenate([[0.0, a], a * np.linspace(0, 1, 400), np.asarray([e for e in extra if 0 <= e <= a])]))
    best = np.inf
    o = phi(zs) + (zs - a) ** 2 / (2 * tau)
    for i in np.argsort(o)[:3]:
        lo, hi = zs[max(i - 1, 0)], zs[min(i + 1, len(zs) - 1)]
        best = min(best, float(o[i]))
        for _ in range(4):
            z = np.linspace(lo, hi, 60)
            oo = phi(z) + (z - a) ** 2 / (2 * tau)
            j = int(np.argmin(oo))
            best = min(best, float(oo[j]))
            lo, hi = z[max(j - 1, 0)], z[min(j + 1, 59)]
    return best


class Sep(Spec):
    """Separable penalty sum_i phi(|x_i|), concave on [0, inf)."""

    def __init__(self, name, make, n, phi, knots=(), **kw):
        self.phi, self.knots = phi, knots
        super().__init__(name, make, n, lambda x: float(np.sum(phi(np.abs(x)))), None, cvx=False, **kw)

    def best(self, x, tau):
        return sum(scalar_min(self.phi, abs(v), tau, self.knots) for v in np.ravel(x))


def g_etp(rng, cplx=False):
    s, g = gen.logu(rng, 0.05, 5), gen.logu(rng, 0.1, 8)
    c = s / (1 - np.exp(-g))
    return Sep("ETP", lambda: P().ETP(s, g), gen.size(rng, 1, 6), lambda a: c * (1 - np.exp(-g * a)),
               thr=lambda t: np.sqrt(2 * t * c), cplx=cplx, cfg=dict(sigma=s, gamma=g))


def g_geman(rng, cplx=False):
    s, g = gen.logu(rng, 0.05, 5), gen.logu(rng, 0.05, 8)
    return Sep("Geman", lambda: P().Geman(s, g), gen.size(rng, 1, 6), lambda a: s * a / (a + g),
               thr=lambda t: np.sqrt(2 * t * s), cplx=cplx, cfg=dict(sigma=s, gamma=g))


def g_log(rng, cplx=False):
    s, g = gen.logu(rng, 0.05, 5), gen.logu(rng, 0.05, 20)
    c = s / np.log(1 + g)
    return Sep("Log", lambda: P().Log(s, g), gen.size(rng, 1, 6), lambda a: c * np.log(1 + g * a),
               thr=lambda t: np.sqrt(2 * t * c), cplx=cplx, cfg=dict(sigma=s, gamma=g))


def g_scad(rng, cplx=False):
    s, a = gen.logu(rng, 0.05, 5), 2 + gen.logu(rng, 0.1, 5)

    def phi(z):
        return np.where(z <= s, s * z, np.where(z <= a * s, (-z ** 2 + 2 * a * s * z - s ** 2) / (2 * (a - 1)),
                                               (a + 1) * s ** 2 / 2))
    return Sep("SCAD", lambda: P().SCAD(s, a), gen.size(rng, 1, 6), phi, knots=(s, a * s),
               thr=lambda t: s * float(rng.choice([t, 1 + t, 1, a, (a + 1 + t) / 2])), cplx=cplx, cfg=dict(sigma=s, a=a))


def g_qecard(rng, cplx=False):
    mu = gen.logu(rng, 0.05, 8)
    r = np.sqrt(2 * mu)
    return Sep("QuadraticEnvelopeCard", lambda: P().QuadraticEnvelopeCard(mu), gen.size(rng, 1, 6),
               lambda z: mu - 0.5 * np.maximum(0, r - z) ** 2, knots=(r,),
               thr=lambda t: r * float(rng.choice([1, t, np.sqrt(t)])), cplx=cplx, cfg=dict(mu=mu))


def ksupport_env(x, r0):
    """Q(I_r0)(x) through the r0-support norm: (||x||_sp^2 - ||x||^2)/2."""
    a = np.sort(np.abs(np.ravel(x)))[::-1]
    n = a.size
    if n <= r0:
        return 0.0
    best = 0.0
    for r in range(r0):
        tail = float(a[r0 - 1 - r:].sum())
        best = float(np.sum(a[: r0 - 1 - r] ** 2)) + tail ** 2 / (r + 1)
        upper = a[r0 - 2 - r] if r0 - 2 - r >= 0 else np.inf
        if upper > tail / (r + 1):
            break
    return max(0.0, 0.5 * (best - float(np.sum(a ** 2))))


def g_qecardind(rng, cplx=False):
    n = gen.size(rng, 1, 8)
    r0 = int(rng.integers(1, n + 2))
    return Spec("QuadraticEnvelopeCardIndicator", lambda: P().QuadraticEnvelopeCardIndicator(r0), n,
                lambda x: ksupport_env(x, r0), None, cvx=False, cplx=cplx, cfg=dict(r0=r0, n=n), acc=1e-9)


def g_qerank(rng, cplx=False):
    dim = (gen.size(rng, 1, 5, 20), gen.size(rng, 1, 5, 20))
    r0 = int(rng.integers(1, min(dim) + 2))
    M = gen.cplx_noise(rng, dim) if cplx else rng.standard_normal(dim)
    if rng.random() < 0.2:
        M = M * 0

    def f(x):
        X = x.reshape(dim)
        return ksupport_env(np.linalg.svd(X, compute_uv=False), r0) + 0.5 * float(np.sum(np.abs(X - M) ** 2))
    return Spec("QuadraticEnvelopeRankL2", lambda: P().QuadraticEnvelopeRankL2(dim, r0, M), dim[0] * dim[1], f, None,
                cvx=True, cplx=cplx, arrays=dict(M=M), cfg=dict(dim=dim, r0=r0), acc=1e-9, value=False)


def g_svp(rng, cplx=False):
    dim = (gen.size(rng, 1, 5, 20), gen.size(rng, 1, 5, 20))
    base = [g_etp, g_geman, g_log, g_scad, g_qecard, g_huber][int(rng.integers(0, 6))](rng)
    phi = base.phi if isinstance(base, Sep) else (lambda a: np.where(a <= base.cfg["alpha"], a ** 2 / (2 * base.cfg["alpha"]), a - base.cfg["alpha"] / 2))
    s = Spec(f"SingularValuePenalty[{base.name}]", lambda: P().SingularValuePenalty(dim, base.make()), dim[0] * dim[1],
             lambda x: float(np.sum(phi(np.linalg.svd(x.reshape(dim), compute_uv=False)))), None,
             cvx=not isinstance(base, Sep), thr=base.thr, cplx=cplx, cfg=dict(dim=dim, **base.cfg), acc=1e-9)
    s.phi = phi
    s.knots = getattr(base, "knots", ())
    s.dim = dim

    def best(x, tau):
        return sum(scalar_min(phi, v, tau, s.knots) for v in np.linalg.svd(x.reshape(dim), compute_uv=False))
    s.best = best
    return s


def g_l0ball(rng, cplx=False):
    n = gen.size(rng, 1, 8)
    r = int(rng.integers(0, n + 2))

    def best(x, tau):
        a = np.sort(np.abs(np.ravel(x)) ** 2)
        return float(a[:max(n - r, 0)].sum()) / (2 * tau)
    s = Spec("L0Ball", lambda: P().L0Ball(r), n, lambda x: 0.0 if np.count_nonzero(x) <= r else np.inf, None,
             cvx=False, ind=True, cplx=cplx, dist=lambda x: max(0, np.count_nonzero(x) - r),
             member=lambda g: gen.vec(g, n, 1, None, cplx, "normal") * (np.arange(n) < r), cfg=dict(radius=r, n=n))
    s.best = best
    return s


def qeci_prox(x, tau, r0):
    """Prox of the quadratic envelope of {card <= r0} by bisection on the level s."""
    rho = 1 / tau
    a = np.abs(x)
    n = a.size
    if n <= r0:
        return x.copy()
    idx = np.argsort(-a, kind="stable")
    ph = np.where(a > 0, x / np.where(a > 0, a, 1), 0)
    out = np.zeros_like(a)
    if rho <= 1:
        out[idx[:r0]] = a[idx[:r0]]
        return ph * out
    top, rest = a[idx[:r0]], rho * a[idx[r0:]]
    if rest[0] <= top[-1]:
        z = np.concatenate([top, rest])
    else:
        lo, hi = float(top[-1]), float(rest[0])
        for _ in range(200):
            s = (lo + hi) / 2
            v = rho * np.maximum(s - top, 0).sum() - np.maximum(rest - s, 0).sum()
            if v > 0:
                hi = s
            else:
                lo = s
        s = (lo + hi) / 2
        z = np.concatenate([np.maximum(top, s), np.minimum(rest, s)])
    out[idx] = (rho * a[idx] - z) / (rho - 1)
    return ph * out


def g_rms(rng, cplx=False):
    s, k = gen.logu(rng, 0.05, 5), gen.logu(rng, 0.05, 5)
    n = gen.size(rng, 1, 6)
    return Sep("RelaxedMumfordShah", lambda: P().RelaxedMumfordShah(s, k), n,
               lambda z: np.minimum(s * z ** 2, k), knots=(np.sqrt(k / s),),
               thr=lambda t: float(np.sqrt(k / s * (1 + 2 * t * s))) * float(rng.choice([1, 1, 1 / np.sqrt(1 + 2 * t * s)])),
               cplx=cplx, cfg=dict(sigma=s, kappa=k), value=False)


def g_l0(rng, cplx=False):
    """Documented by formula: entries up to tau*sigma are removed."""
    n = gen.size(rng, 1, 7)
    s = gen.logu(rng, 0.05, 5)
    return Spec("L0", lambda: P().L0(s), n, lambda x: float(np.count_nonzero(x)),
                lambda x, t: np.where(np.abs(x) > t * s, x, 0), cvx=False, thr=lambda t: t * s, cplx=cplx,
                cfg=dict(sigma=s))


def g_log1(rng, cplx=False):
    n = gen.size(rng, 1, 7)
    s = gen.logu(rng, 0.05, 5)
    d = float(rng.choice([1e-10, 1e-3, 0.5, 2.0, 6.0]))

    def prox(x, t):
        a = np.abs(x)
        x0 = max(np.sqrt(2 * t * s) - d, 0)
        with np.errstate(all="ignore"):
            v = 0.5 * np.maximum(a - d + np.sqrt(np.maximum((a + d) ** 2 - 2 * t * s, 0)), 0)
            ph = np.where(a > 0, x / np.where(a > 0, a, 1), 0)
        return np.where(a > x0, ph * v, 0)
    return Spec("Log1", lambda: P().Log1(s, d), n, lambda x: float(np.sum(np.log(np.abs(x) + d))), prox, cvx=False,
                thr=lambda t: max(np.sqrt(2 * t * s) - d, 1e-3), cplx=cplx, cfg=dict(sigma=s, delta=d))


def g_l10ball(rng, cplx=False):
    nd, k = gen.size(rng, 1, 4, 20), gen.size(rng, 1, 6, 40)
    r = int(rng.integers(0, k + 2))
    return Spec("L10Ball", lambda: P().L10Ball(nd, r), nd * k,
                lambda x: 0.0 if np.count_nonzero(np.abs(x.reshape(nd, k)).sum(0)) <= r else np.inf, None, cvx=False,
                ind=True, cplx=cplx, cfg=dict(ndim=nd, k=k, radius=r),
                dist=lambda x: max(0, np.count_nonzero(np.abs(x.reshape(nd, k)).sum(0)) - r),
                member=lambda g: (gen.vec(g, nd * k, 1, None, cplx, "normal").reshape(nd, k) * (np.arange(k) < r)).ravel())


CONVEX = dict(L1=g_l1, L2=g_l2, L2Convolve=g_l2conv, L21=g_l21, L21_plus_L1=g_l21l1, Huber=g_huber,
              HuberCircular=g_hubercirc, Euclidean=g_euclid, Quadratic=g_quadratic,
              Nuclear=lambda r, cplx=False: g_nuclear(r, cplx, False), Nonlinear=g_nonlinear,
              Orthogonal=g_orthogonal, VStack=g_vstack)
SETS = dict(Box=g_box, Simplex=g_simplex, L1Ball=g_l1ball, EuclideanBall=g_euclball, NuclearBall=g_nucball,
            HalfSpace=g_halfspace, AffineSet=g_affine, Hankel=g_hankel, Intersection=g_intersection,
            GenericIntersectionProx=g_genint)
NONCONVEX = dict(ETP=g_etp, Geman=g_geman, Log=g_log, SCAD=g_scad, QuadraticEnvelopeCard=g_qecard,
                 QuadraticEnvelopeCardIndicator=g_qecardind, SingularValuePenalty=g_svp, L0Ball=g_l0ball,
                 NuclearWeighted=lambda r, cplx=False: g_nuclear(r, cplx, True))
COMPLEX_OK = {"Quadratic", "L1", "L2", "L2Convolve", "L21", "L21_plus_L1", "Huber", "HuberCircular", "Euclidean", "Nuclear", "L1Ball",
              "EuclideanBall", "NuclearBall", "AffineSet", "ETP", "Geman", "Log", "SCAD",
              "QuadraticEnvelopeCard", "QuadraticEnvelopeCardIndicator", "SingularValuePenalty", "L0Ball",
              "NuclearWeighted", "Orthogonal", "VStack", "QERank", "L0", "Log1", "RelaxedMumfordShah", "L10Ball"}
EXTRA = dict(QERank=g_qerank)
FORMULA = dict(L0=g_l0, Log1=g_log1, RelaxedMumfordShah=g_rms, L10Ball=g_l10ball)
ALL = {**CONVEX, **SETS, **NONCONVEX, **EXTRA, **FORMULA}


def pick(m, table, cplx_frac=0.25):
    """Case index chooses the family (every family reached), the rng everything else."""
    names = list(table)
    name = names[m.index % len(names)]
    c = name in COMPLEX_OK and m.rng.random() < cplx_frac
    s = table[name](m.rng, cplx=c)
    m.event("family:" + name + ("[complex]" if c else ""))
    return s
