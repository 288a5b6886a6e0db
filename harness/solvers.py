"""Every solver of the library with its documented recursion written a second time.

A builder draws a random, admissible problem and returns a Run: `call` executes the
library, `ref` yields what each iteration must hand to the callback.
"""
import numpy as np

import catalog as C
import gen


class Undecided(Exception):
    """A comparison inside the recursion is within rounding of a tie: stop comparing here."""


class Run:
    def __init__(self, name, call, ref, *, arrays=None, ncb=1, tol=None, opts=None, x0=None, ret=None, specs=None, tie=1e-9,
                 kinds=None, final=None, data=None):
        self.name, self._call, self._ref = name, call, ref
        self.arrays = arrays or {}
        self.ncb = ncb            # arguments of the callback
        self.tol = tol
        self.opts = opts or {}
        self.x0 = x0
        self.ret = ret or (lambda r: (r,))       # result -> arrays comparable with the last iterates
        self.specs = specs or []
        self.tie = tie
        self.final = final        # iterates (tuple of the ref) -> what must be returned
        self.data = data

    def call(self, niter, cb=None, show=False, **over):
        return self._call(niter, cb, show, over)

    def ref(self, niter, pert=0.0, **over):
        for s in self.specs:
            if hasattr(s, "reset"):
                s.reset()
        return self._ref(niter, pert, over)


def relaxation(rng, top):
    """A relaxation in (0, top): mostly moderate, sometimes close to either end."""
    u = rng.random()
    return float(rng.uniform(.05, .95) if u < .8 else rng.uniform(.95, .999) if u < .9 else rng.uniform(.002, .05)) * top


def trace(run, niter, show=False, **over):
    """Run the library, copying what the callback sees."""
    seen = []

    def cb(*a):
        seen.append(tuple(np.array(v, copy=True) for v in a))
    res = run.call(niter, cb, show, **over)
    return seen, res


def ref_trace(run, niter, pert=0.0, **over):
    out, undecided = [], False
    try:
        for it in run.ref(niter, pert, **over):
            out.append(it)
    except Undecided:
        undecided = True
    return out, undecided


def P():
    return C.P()


def O():
    import pyproximal.optimization as o
    return o


# ------------------------------------------------------------------------ ingredients
_ref = {}


def refop(spec):
    """The functional of `spec` as an operator written in the harness (logs its calls)."""
    if not _ref:
        from pyproximal.ProxOperator import ProxOperator

        class RefOp(ProxOperator):
            def __init__(self, s):
                super().__init__(None, s.grad is not None)
                self.s = s
                self.log = []

            def __call__(self, x):
                self.log.append("value")
                return self.s.f(x)

            def prox(self, x, tau):
                if np.any(np.asarray(tau) <= 0):
                    raise ValueError("tau must be positive")
                self.log.append("prox")
                return self.s.prox(x, tau)

            def proxdual(self, x, tau):
                if np.any(np.asarray(tau) <= 0):
                    raise ValueError("tau must be positive")
                self.log.append("proxdual")
                return x - tau * self.s.prox(x / tau, 1.0 / tau)

            def grad(self, x):
                self.log.append("grad")
                return self.s.grad(x)
        _ref["c"] = RefOp
    return _ref["c"](spec)


def dual(s, x, t):
    if hasattr(s, "dual"):
        return s.dual(x, t)
    return x - t * s.prox(x / t, 1.0 / t)


def vec(rng, n, cplx, scale=2.0):
    return gen.vec(rng, n, 1.0, None, cplx, "normal") * scale


def start(rng, n, cplx):
    """A starting point of any dtype a caller may use: integers, or reals for a complex problem."""
    u = rng.random()
    if not cplx and u < .1:
        return rng.integers(-3, 4, n)
    if cplx and u < .15:
        return vec(rng, n, False)
    if not cplx and u > .95:
        return np.zeros(n)
    return vec(rng, n, cplx)


def anyf(rng, n, cplx=False, noind=True):
    """A cheap convex functional of any size."""
    k = int(rng.integers(0, 6 if (noind or cplx) else 8))
    s = gen.logu(rng, .1, 3)
    if k in (0, 1):
        return C.Spec("L1", lambda: P().L1(sigma=s), n, lambda x: s * float(np.abs(x).sum()), lambda x, t: C.soft(x, t * s), cplx=cplx)
    if k == 2:
        b = vec(rng, n, cplx, 1.)
        return C.Spec("L2[b]", lambda: P().L2(b=b, sigma=s), n, lambda x: s / 2 * float(np.sum(np.abs(x - b) ** 2)),
                      lambda x, t: (x + t * s * b) / (1 + t * s), grad=lambda x: s * (x - b), arrays=dict(b=b), cplx=cplx)
    if k == 3:
        return C.Spec("Euclidean", lambda: P().Euclidean(sigma=s), n, lambda x: s * float(np.linalg.norm(x)), lambda x, t: C.shrink(x, t * s), cplx=cplx)
    if k == 4:
        g = vec(rng, n, cplx, 1.)
        return C.Spec("L1[g]", lambda: P().L1(sigma=s, g=g), n, lambda x: s * float(np.abs(x - g).sum()), lambda x, t: g + C.soft(x - g, t * s), arrays=dict(g=g), cplx=cplx)
    if k == 5:
        def f(x):
            a = np.abs(x)
            return float(np.sum(np.where(a <= s, a ** 2 / (2 * s), a - s / 2)))
        return C.Spec("Huber", lambda: P().Huber(alpha=s), n, f,
                      lambda x, t: np.where(np.abs(x) > s + t, C.soft(x, t), x * (s / (s + t))), cplx=cplx)
    if k == 6:
        lo, hi = -gen.logu(rng, .1, 2), gen.logu(rng, .1, 2)
        return C.Spec("Box", lambda: P().Box(lo, hi), n, lambda x: 0. if np.all((x >= lo - 1e-9) & (x <= hi + 1e-9)) else np.inf,
                      lambda x, t: np.clip(x, lo, hi), ind=True)
    r = gen.logu(rng, .3, 3)
    c = rng.standard_normal(n)

    def prox(x, t):
        d = x - c
        nd = np.linalg.norm(d)
        return x.copy() if nd <= r else c + d * (r / nd)
    return C.Spec("EuclideanBall", lambda: P().EuclideanBall(c, r), n, lambda x: 0. if np.linalg.norm(x - c) <= r * (1 + 1e-9) else np.inf,
                  prox, ind=True, arrays=dict(c=c))


def smooth(rng, n, cplx=False, cond=None):
    """A smooth convex functional with its Lipschitz constant `L` (strongly convex when tall)."""
    k = int(rng.integers(0, 4))
    s = gen.step(rng, .2, 3, 30.)
    if k <= 1:
        m = n + int(rng.integers(-min(n - 1, 2), 3)) if cond is None else n + int(rng.integers(0, 3))
        A = gen.mat(rng, m, n, cplx, cond)
        b = vec(rng, m, cplx, 1.)
        AH = A.conj().T
        Op = gen.linop(rng, A)
        q = C.Spec("L2[Op,b]", lambda: P().L2(Op=Op, b=b, sigma=s), n, lambda x: s / 2 * float(np.sum(np.abs(A @ x - b) ** 2)),
                   lambda x, t: np.linalg.solve(np.eye(n) + t * s * AH @ A, x + t * s * AH @ b),
                   grad=lambda x: s * (AH @ (A @ x - b)), arrays=dict(A=A, b=b), cplx=cplx)
        q.H = s * (AH @ A)
        q.explicit = hasattr(Op, "A") and not hasattr(Op, "log")
    elif k == 2:
        b = vec(rng, n, cplx, 1.)
        v = vec(rng, n, cplx, 1.)
        al = gen.logu(rng, .3, 2)
        kw = dict(q=v, alpha=al)
        q = C.Spec("L2[b,q]", lambda: P().L2(b=b, sigma=s, **kw), n,
                   lambda x: s / 2 * float(np.sum(np.abs(x - b) ** 2)) + al * C.rdot(v, x),
                   lambda x, t: (x + t * s * b - t * al * v) / (1 + t * s), grad=lambda x: s * (x - b) + al * v, arrays=dict(b=b, q=v), cplx=cplx)
        q.H = s * np.eye(n)
        q.explicit = True
    else:
        A = gen.spd(rng, n, .2, 3, cplx) * max(1., s / 3)
        b = vec(rng, n, cplx, 1.) * max(1., s / 3)
        q = C.Spec("Quadratic", lambda: P().Quadratic(Op=gen.dense(A), b=b, c=1.5), n, lambda x: C.rdot(x, A @ x) / 2 + C.rdot(b, x) + 1.5,
                   lambda x, t: np.linalg.solve(np.eye(n) + t * A, x - t * b), grad=lambda x: A @ x + b, arrays=dict(A=A, b=b), cplx=cplx)
        q.H = A
        q.explicit = True
    q.L = float(np.linalg.eigvalsh(q.H).max())
    return q


def lib(rng_bool, s):
    """The library's operator, or the harness's own operator for the same functional."""
    return refop(s) if rng_bool else s.make()


def both(*specs):
    out = {}
    for i, s in enumerate(specs):
        out.update({f"{k}:{i}": v for k, v in s.arrays.items() if isinstance(v, np.ndarray)})
    return out


def jig(rng, n, cplx, pert):
    return 0 if pert == 0 else pert * vec(rng, n, cplx, 1.)


def tieless(a, b, scale):
    if not np.isfinite(a) and not np.isfinite(b):
        return
    if abs(a - b) <= 1e-9 * (scale + abs(a) + abs(b)):
        raise Undecided()


def pertvec(n, cplx):
    r = np.random.default_rng(12345 + n)
    v = r.standard_normal(n)
    return v + 1j * r.standard_normal(n) if cplx else v


def P0(x0, pert):
    return x0 + pert * pertvec(x0.size, np.iscomplexobj(x0)).reshape(x0.shape) if pert else x0.copy()


# ------------------------------------------------------------------------------- builders
def b_proximalpoint(rng, cplx=False, g=None):
    n = g.n if g is not None else gen.size(rng, 1, 7, 40)
    s = g or anyf(rng, n, cplx, False)
    tau = gen.step(rng, .05, 5)
    x0 = start(rng, n, cplx)
    tol = None if rng.random() < .6 or s.ind else gen.logu(rng, 1e-6, .5)
    u = rng.random() < .3 and not hasattr(s, "reset")

    def call(niter, cb, show, over):
        return O().primal.ProximalPoint(lib(u, s), x0, tau, niter=niter, tol=over.get("tol", tol), callback=cb, show=show)

    def ref(niter, pert, over):
        x = P0(x0, pert)
        tl = over.get("tol", tol)
        pf = np.inf
        for _ in range(niter):
            x = s.prox(x, tau)
            yield (x,)
            if tl is not None:
                old, pf = pf, s.f(x)
                if relchange(pf, old, tl):
                    return
    return Run("ProximalPoint", call, ref, arrays=dict(x0=x0, **both(s)), tol=tol, opts=dict(f=s.name, tau=tau, tol=tol), x0=x0, specs=[s], data=dict(J=lambda x, k: s.f(x), f=s))


def relchange(new, old, tl):
    if np.isinf(old):
        return False
    if abs(old) < 1e-12 and abs(new) < 1e-12:      # relative change of nothing
        raise Undecided()
    tieless(abs(old - new), tl * abs(old), 0.1 * tl * abs(old) + 1e-3 * abs(old))
    return abs(old - new) < tl * abs(old)


def b_proximalgradient(rng, cplx=False, g=None, alias=False):
    n = g.n if g is not None else gen.size(rng, 1, 7, 40)
    f = smooth(rng, n, cplx)
    g = g or anyf(rng, n, cplx, rng.random() < .8)
    mode = int(rng.integers(0, 3))          # fixed, forced backtracking, tau=None
    tau = None if mode == 2 else gen.short(rng, .2) / f.L * (1 if mode == 0 else gen.logu(rng, 1, 30))
    bt = mode == 1
    if alias:
        mode = 0 if mode == 1 else mode
        bt = False
    beta = float(rng.choice([.5, .3, .9]))
    eta = 1. if rng.random() < .6 or alias else relaxation(rng, 1)
    acc = [None, "None", "vandenberghe", "fista"][int(rng.integers(0, 4))]
    if alias:
        acc = acc or "vandenberghe"
    ev = rng.random() < .3
    niterback = int(rng.choice([100, 3]))
    tol = None if rng.random() < .6 or g.ind else gen.logu(rng, 1e-6, .3)
    x0 = start(rng, n, cplx)
    e1 = gen.logu(rng, .1, 4)
    epsv = np.exp(rng.uniform(-2, 1, 400))
    uf, ug = rng.random() < .3, rng.random() < .3 and not hasattr(g, "reset")

    def eps(niter):
        return epsv[:niter].copy() if ev and niter > 1 else e1

    def call(niter, cb, show, over):
        fo, go = lib(uf, f), lib(ug, g)
        tl = over.get("tol", tol)
        if alias:
            return O().primal.AcceleratedProximalGradient(fo, go, x0, tau=tau, beta=beta, epsg=eps(niter), niter=niter, niterback=niterback,
                                                          acceleration=acc, tol=tl, callback=cb, show=show)
        return O().primal.ProximalGradient(fo, go, x0, epsg=eps(niter), tau=tau, backtracking=bt, beta=beta, eta=eta, niter=niter,
                                           niterback=niterback, acceleration=acc, tol=tl, callback=cb, show=show)

    def ref(niter, pert, over):
        tl = over.get("tol", tol)
        e = np.broadcast_to(eps(niter), (niter,))
        x = P0(x0, pert)
        y = x.copy()
        t = 1.
        T = tau
        back = bt or tau is None
        if T is None:
            T = 1.
        old = np.inf
        for k in range(niter):
            xo = x
            if not back:
                z = g.prox(y - T * f.grad(y), e[k] * T)
            else:
                gy, fy = f.grad(y), f.f(y)
                for _ in range(niterback):
                    z = g.prox(y - T * gy, e[k] * T)
                    d = z - y
                    ft = fy + C.rdot(gy, d) + float(np.sum(np.abs(d) ** 2)) / (2 * T)
                    fz = f.f(z)
                    if np.linalg.norm(d) > 0:
                        tieless(fz - ft, 0, abs(fz) + abs(fy))
                    if fz <= ft:
                        break
                    T = T * beta
            x = y + eta * (z - y)
            if acc == "vandenberghe":
                om = k / (k + 3)
            elif acc == "fista":
                to, t = t, (1 + np.sqrt(1 + 4 * t * t)) / 2
                om = (to - 1) / t
            else:
                om = 0.
            y = x + om * (x - xo)
            yield (x,)
            if tl is not None:
                new = f.f(x) + e[k] * g.f(x)
                if relchange(new, old, tl):
                    return
                old = new
    return Run("AcceleratedProximalGradient" if alias else "ProximalGradient", call, ref, arrays=dict(x0=x0, **both(f, g)), tol=tol,
               opts=dict(f=f.name, g=g.name, tau=tau, backtracking=bt, beta=beta, eta=eta, acc=acc, epsg="vector" if ev else e1, niterback=niterback, tol=tol),
               x0=x0, specs=[f, g], data=dict(f=f, g=g, eps=None if ev else e1, mode=mode, acc=acc, eta=eta, J=lambda x, k: f.f(x) + (epsv[k] if ev else e1) * g.f(x)))


def b_pg_multirhs(rng, cplx=False):
    """Several right-hand sides at once, one step per column."""
    n, N = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    A = gen.mat(rng, n + 1, n, cplx)
    B = vec(rng, (n + 1) * N, cplx).reshape(n + 1, N)
    AH = A.conj().T
    f = C.Spec("multi", None, n * N, lambda X: .5 * float(np.sum(np.abs(A @ X - B) ** 2)), None, grad=lambda X: AH @ (A @ X - B), cplx=cplx)
    s = gen.logu(rng, .1, 2)
    g = C.Spec("L1", lambda: P().L1(s), n * N, lambda X: s * float(np.abs(X).sum()), lambda X, t: C.soft(X, t * s))
    tau = np.exp(rng.uniform(-2, 0, N)) / np.linalg.norm(A, 2) ** 2
    X0 = vec(rng, n * N, cplx).reshape(n, N)
    acc = [None, "vandenberghe", "fista"][int(rng.integers(0, 3))]

    def call(niter, cb, show, over):
        return O().primal.ProximalGradient(refop(f), g.make(), X0, tau=tau, niter=niter, acceleration=acc, callback=cb, show=show)

    def ref(niter, pert, over):
        x = P0(X0, pert)
        y, t = x.copy(), 1.
        for k in range(niter):
            xo = x
            x = g.prox(y - tau * f.grad(y), tau)
            om = 0.
            if acc == "vandenberghe":
                om = k / (k + 3)
            elif acc == "fista":
                to, t = t, (1 + np.sqrt(1 + 4 * t * t)) / 2
                om = (to - 1) / t
            y = x + om * (x - xo)
            yield (x,)
    return Run("ProximalGradient[multi-rhs]", call, ref, arrays=dict(x0=X0, tau=tau), opts=dict(acc=acc, N=N), x0=X0)


def b_anderson(rng, cplx=False, g=None):
    n = g.n if g is not None else gen.size(rng, 2, 7, 40)
    f = smooth(rng, n, cplx, cond=3.)
    g = g or anyf(rng, n, cplx, True)
    tau = gen.short(rng, .3) / f.L
    nh = int(rng.integers(1, 6))
    epsr = gen.logu(rng, 1e-6, 1e-2)
    guard = bool(rng.random() < .4)
    ev = rng.random() < .3
    e1 = gen.logu(rng, .1, 3)
    epsv = np.exp(rng.uniform(-2, 1, 400))
    tol = None if rng.random() < .7 or g.ind else gen.logu(rng, 1e-5, .3)
    x0 = vec(rng, n, cplx)
    uf, ug = rng.random() < .3, rng.random() < .3 and not hasattr(g, "reset")
    eps = lambda niter: epsv[:niter].copy() if ev and niter > 1 else e1

    def call(niter, cb, show, over):
        return O().primal.AndersonProximalGradient(lib(uf, f), lib(ug, g), x0, epsg=eps(niter), tau=tau, niter=niter, nhistory=nh, epsr=epsr,
                                                   safeguard=guard, tol=over.get("tol", tol), callback=cb, show=show)

    def ref(niter, pert, over):
        tl = over.get("tol", tol)
        e = np.broadcast_to(eps(niter), (niter,))
        y0 = P0(x0, pert)
        step = lambda v: v - tau * f.grad(v)
        y = step(y0)
        x = g.prox(y, e[0] * tau)
        R, G = [y - y0], [y.copy()]
        pf = f.f(x)
        old = np.inf
        for k in range(niter):
            gk = step(x)
            R.insert(0, gk - y)
            G.insert(0, gk)
            R, G = R[:nh], G[:nh]
            M = np.array(R)
            K = M.conj() @ M.T
            nrm = float(np.sum(np.abs(M) ** 2))
            if nrm == 0:
                al = np.ones(len(R)) / len(R)
            else:
                if nrm < 1e-20:
                    raise Undecided()
                w = np.linalg.solve(K + epsr * nrm * np.eye(len(R)), np.ones(len(R)))
                al = w / w.sum()
            yt = np.array(G).T @ al
            xt = g.prox(yt, e[k] * tau)
            if guard:
                ft = f.f(xt)
                gr = f.grad(x)
                bound = pf - tau * float(np.sum(np.abs(gr) ** 2)) / 2
                tieless(ft, bound, abs(pf))
                if ft <= bound:
                    y, x, pf = yt, xt, ft
                else:
                    y = gk
                    x = g.prox(y, e[k] * tau)
                    pf = f.f(x)
            else:
                y, x = yt, xt
            yield (x,)
            if tl is not None:
                pf = f.f(x)
                new = pf + e[k] * g.f(x)
                if relchange(new, old, tl):
                    return
                old = new
    return Run("AndersonProximalGradient", call, ref, arrays=dict(x0=x0, **both(f, g)), tol=tol,
               opts=dict(f=f.name, g=g.name, tau=tau, nhistory=nh, epsr=epsr, safeguard=guard, epsg="vector" if ev else e1, tol=tol), x0=x0,
               specs=[f, g], tie=1e-6, data=dict(f=f, g=g, J=lambda x, k: f.f(x) + (epsv[k] if ev else e1) * g.f(x)))


def b_gpg(rng, cplx=False, g=None):
    n = gen.size(rng, 1, 6, 40) if g is None else g.n
    kf, kg = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    fs = [smooth(rng, n, cplx) for _ in range(kf)]
    gs = [anyf(rng, n, cplx, rng.random() < .8) for _ in range(kg)]
    if g is not None:
        gs[0] = g
    tau = gen.short(rng, .2) / sum(f.L for f in fs)
    ek = int(rng.integers(0, 2))
    epsg = gen.logu(rng, .2, 3) if ek == 0 or kg == 1 else np.exp(rng.uniform(-1, 1, kg))
    w = None
    if rng.random() < .6:
        w = rng.random(kg) + .1
        w = w / w.sum()
        if rng.random() < .5:
            w = [float(v) for v in w]
    acc = [None, None, "vandenberghe", "fista", "None"][int(rng.integers(0, 5))]
    eta = 1. if acc not in (None, "None") or rng.random() < .5 else relaxation(rng, 1)
    x0 = start(rng, n, cplx)
    u = rng.random() < .3 and g is None

    def call(niter, cb, show, over):
        return O().primal.GeneralizedProximalGradient([lib(u, f) for f in fs], [lib(u, q) for q in gs], x0, tau, epsg=epsg, weights=w, eta=eta,
                                                      niter=niter, acceleration=acc, callback=cb, show=show)

    def ref(niter, pert, over):
        W = np.ones(kg) / kg if w is None else np.asarray(w)
        E = np.broadcast_to(epsg, (kg,))
        x = P0(x0, pert)
        y, t = x.copy(), 1.
        zs = [x.copy() for _ in gs]
        for k in range(niter):
            xo = x
            gr = sum(f.grad(x) for f in fs)
            for j, q in enumerate(gs):
                zs[j] = zs[j] + eta * (q.prox(2 * y - zs[j] - tau * gr, tau * E[j] / W[j]) - y)
            x = sum(W[j] * zs[j] for j in range(kg))
            om = 0.
            if acc == "vandenberghe":
                om = k / (k + 3)
            elif acc == "fista":
                to, t = t, (1 + np.sqrt(1 + 4 * t * t)) / 2
                om = (to - 1) / t
            y = x + om * (x - xo)
            yield (x,)
    arrs = dict(x0=x0, **both(*fs, *gs))
    if isinstance(w, np.ndarray):
        arrs["weights"] = w
    if isinstance(epsg, np.ndarray):
        arrs["epsg"] = epsg
    return Run("GeneralizedProximalGradient", call, ref, arrays=arrs,
               opts=dict(f=[f.name for f in fs], g=[q.name for q in gs], weights=str(w), eta=eta, acc=acc, epsg=str(epsg)), x0=x0, specs=fs + gs,
               data=dict(fs=fs, gs=gs, epsg=epsg, acc=acc))


def b_twist(rng, cplx=False, g=None):
    n = g.n if g is not None else gen.size(rng, 2, 8, 40)
    m = n + int(rng.integers(0, 3))
    A = gen.mat(rng, m, n, cplx, cond=gen.logu(rng, 1.2, 5)) * float(rng.uniform(.5, 1))
    if g is None:
        g = anyf(rng, n, cplx, True)
    b = vec(rng, m, cplx)
    AH = A.conj().T
    ev = np.linalg.eigvalsh(AH @ A)
    mode = int(rng.integers(0, 3 if n >= 4 else 2))      # the library estimates eigenvalues of larger operators only
    x0 = start(rng, n, cplx)
    kw = {}
    lmax, lmin = max(1., ev[-1]), max(0., ev[0])
    if mode == 0:
        kw = dict(eigs=(float(lmax), float(lmin)))
    elif mode == 1:
        kw = dict(alpha=float(rng.uniform(.7, 1.9)), beta=float(rng.uniform(.5, 1.8)))
    k = lmin / lmax
    rho = (1 - np.sqrt(k)) / (1 + np.sqrt(k))
    alpha = kw.get("alpha", 1 + rho ** 2)
    beta = kw.get("beta", 2 * alpha / (lmax + lmin))
    cost = bool(rng.random() < .4)
    Op = gen.linop(rng, A)
    u = rng.random() < .3 and not hasattr(g, "reset")

    def call(niter, cb, show, over):
        return O().primal.TwIST(lib(u, g), Op, b, x0, niter=niter, callback=cb, show=show, returncost=over.get("cost", cost), **kw)

    def ref(niter, pert, over):
        xo = P0(x0, pert)
        step = lambda v: g.prox(v + AH @ (b - A @ v), 1.)
        x = step(xo)
        for _ in range(niter):
            xo, x = x, (1 - alpha) * xo + (alpha - beta) * x + beta * step(x)
            yield (x,)
    return Run("TwIST", call, ref, arrays=dict(x0=x0, b=b, A=A, **both(g)), opts=dict(g=g.name, mode=mode, alpha=alpha, beta=beta, cost=cost),
               x0=x0, specs=[g], ret=lambda r: (r[0],) if isinstance(r, tuple) else (r,), tie=1e-7 if mode == 2 else 1e-9,
               data=dict(A=A, b=b, g=g, cost=cost, fcost=lambda x: .5 * float(np.sum(np.abs(A @ x - b) ** 2)) + g.f(x)))


def b_hqs(rng, cplx=False, g=None, admm=False):
    n = g.n if g is not None else gen.size(rng, 1, 7, 40)
    f = smooth(rng, n, cplx)
    f = f if f.explicit and rng.random() < .6 else anyf(rng, n, cplx, False)
    g = g or anyf(rng, n, cplx, False)
    gfirst = bool(rng.random() < .5)
    tauv = np.exp(rng.uniform(-2, 2, 400))
    tv = not admm and rng.random() < .4
    t1 = gen.logu(rng, .1, 5)
    x0 = start(rng, n, cplx)
    z0 = vec(rng, n, cplx)
    st = int(rng.integers(0, 3))
    X0, Z0 = (x0, None) if st == 0 else ((None, z0) if st == 1 else (x0, z0))
    cz = bool(rng.random() < .5)
    u, ug = rng.random() < .3, rng.random() < .3 and not hasattr(g, "reset")

    def call(niter, cb, show, over):
        fo, go = lib(u, f), lib(ug, g)
        if admm:
            return O().primal.ADMM(fo, go, X0, t1, niter=niter, z0=Z0, gfirst=gfirst, callback=cb, callbackz=cz, show=show)
        return O().primal.HQS(fo, go, X0, tauv[:niter].copy() if tv and niter > 1 else t1, niter=niter, z0=Z0, gfirst=gfirst, callback=cb,
                              callbackz=cz, show=show)

    def ref(niter, pert, over):
        x = P0(z0 if X0 is None else x0, pert)
        z = P0(x0 if Z0 is None else z0, pert)
        w = 0 * x
        for k in range(niter):
            t = tauv[k] if tv and niter > 1 else t1
            if gfirst:
                z = g.prox(x + w, t)
                x = f.prox(z - w, t)
            else:
                x = f.prox(z - w, t)
                z = g.prox(x + w, t)
            if admm:
                w = w + x - z
            yield (x, z)
    arrs = dict(both(f, g))
    if X0 is not None:
        arrs["x0"] = x0
    if Z0 is not None:
        arrs["z0"] = z0
    return Run("ADMM" if admm else "HQS", call, ref, arrays=arrs, ncb=2 if cz else 1,
               opts=dict(f=f.name, g=g.name, gfirst=gfirst, start=st, tau="vector" if tv else t1, callbackz=cz), x0=x0, specs=[f, g],
               ret=lambda r: r, data=dict(f=f, g=g, tau=None if tv else t1, gfirst=gfirst))


def b_admm(rng, cplx=False, g=None):
    return b_hqs(rng, cplx, g, True)


def b_admml2(rng, cplx=False, g=None):
    n = gen.size(rng, 1, 6, 40)
    p = g.n if g is not None else gen.size(rng, 1, 6, 40)
    m = n + int(rng.integers(0, 3))
    M = gen.mat(rng, m, n, cplx, cond=3.)
    A = gen.mat(rng, p, n, cplx)
    b = vec(rng, m, cplx)
    g = g or anyf(rng, p, cplx, False)
    tau = gen.step(rng, .1, 3)
    x0 = start(rng, n, cplx)
    usez = bool(rng.random() < .5)
    z0 = vec(rng, p, cplx)
    gfirst = bool(rng.random() < .5)
    Op, Ao = gen.linop(rng, M), gen.linop(rng, A)
    u = rng.random() < .3 and not hasattr(g, "reset")
    lim = 60 * n + 100

    def call(niter, cb, show, over):
        return O().primal.ADMML2(lib(u, g), Op, b, Ao, x0, tau, niter=niter, z0=z0 if usez else None, gfirst=gfirst, callback=cb, show=show,
                                 iter_lim=lim, atol=1e-15, btol=1e-15)

    def ref(niter, pert, over):
        MH, AH = M.conj().T, A.conj().T
        K = MH @ M + AH @ A / tau
        solve = lambda d: np.linalg.solve(K, MH @ b + AH @ d / tau)
        x = P0(x0, pert)
        z = z0.copy() if usez else A @ x
        w = 0 * z
        for _ in range(niter):
            if gfirst:
                z = g.prox(A @ x + w, tau)
                x = solve(z - w)
            else:
                x = solve(z - w)
                z = g.prox(A @ x + w, tau)
            w = w + A @ x - z
            yield (x, z)
    arrs = dict(x0=x0, b=b, A=A, M=M, **both(g))
    if usez:
        arrs["z0"] = z0
    return Run("ADMML2", call, ref, arrays=arrs, opts=dict(g=g.name, tau=tau, gfirst=gfirst, z0=usez, m=m, n=n, p=p), x0=x0, specs=[g],
               ret=lambda r: r, tie=1e-6, data=dict(M=M, A=A, b=b, g=g))


def b_linadmm(rng, cplx=False, g=None):
    n = gen.size(rng, 1, 6, 40)
    p = g.n if g is not None else gen.size(rng, 1, 6, 40)
    A = gen.mat(rng, p, n, cplx)
    f = anyf(rng, n, cplx, False)
    g = g or anyf(rng, p, cplx, False)
    tau = gen.step(rng, .1, 5)
    mu = float(rng.uniform(.2, 1)) * tau / np.linalg.norm(A, 2) ** 2
    x0 = start(rng, n, cplx)
    usez = bool(rng.random() < .5)
    z0 = vec(rng, p, cplx)
    Ao = gen.linop(rng, A)
    u, ug = rng.random() < .3, rng.random() < .3 and not hasattr(g, "reset")

    def call(niter, cb, show, over):
        return O().primal.LinearizedADMM(lib(u, f), lib(ug, g), Ao, x0, tau, mu, niter=niter, z0=z0 if usez else None, callback=cb, show=show)

    def ref(niter, pert, over):
        AH = A.conj().T
        x = P0(x0, pert)
        z = z0.copy() if usez else A @ x
        w = 0 * z
        for _ in range(niter):
            x = f.prox(x - mu / tau * (AH @ (A @ x - z + w)), mu)
            z = g.prox(A @ x + w, tau)
            w = w + A @ x - z
            yield (x, z)
    arrs = dict(x0=x0, A=A, **both(f, g))
    if usez:
        arrs["z0"] = z0
    return Run("LinearizedADMM", call, ref, arrays=arrs, opts=dict(f=f.name, g=g.name, tau=tau, mu=mu, z0=usez), x0=x0, specs=[f, g],
               ret=lambda r: r, data=dict(f=f, g=g, A=A))


def b_drs(rng, cplx=False, g=None):
    n = g.n if g is not None else gen.size(rng, 1, 7, 40)
    f = smooth(rng, n, cplx)
    f = f if f.explicit and rng.random() < .5 else anyf(rng, n, cplx, False)
    g = g or anyf(rng, n, cplx, False)
    tau = gen.step(rng, .1, 5)
    eta = 1. if rng.random() < .4 else relaxation(rng, 2)
    gfirst = bool(rng.random() < .5)
    cy = bool(rng.random() < .5)
    x0 = start(rng, n, cplx)
    u, ug = rng.random() < .3, rng.random() < .3 and not hasattr(g, "reset")

    def call(niter, cb, show, over):
        return O().primal.DouglasRachfordSplitting(lib(u, f), lib(ug, g), x0, tau, eta=eta, niter=niter, gfirst=gfirst, callback=cb, callbacky=cy, show=show)

    def ref(niter, pert, over):
        y = P0(x0, pert)
        a, b = (g, f) if gfirst else (f, g)
        for _ in range(niter):
            x = a.prox(y, tau)
            y = y + eta * (b.prox(2 * x - y, tau) - x)
            yield (x, y)
    return Run("DouglasRachfordSplitting", call, ref, arrays=dict(x0=x0, **both(f, g)), ncb=2 if cy else 1,
               opts=dict(f=f.name, g=g.name, tau=tau, eta=eta, gfirst=gfirst, callbacky=cy), x0=x0, specs=[f, g], ret=lambda r: r,
               data=dict(f=f, g=g, tau=tau, eta=eta))


def b_ppxa(rng, cplx=False, g=None):
    n = g.n if g is not None else gen.size(rng, 1, 6, 40)
    m = int(rng.integers(1, 5))
    fs = [anyf(rng, n, cplx, False) for _ in range(m)]
    if g is not None:
        fs[0] = g
    tau = gen.step(rng, .1, 5)
    eta = 1. if rng.random() < .4 else relaxation(rng, 2)
    w = None
    if m > 1 and rng.random() < .6:
        w = rng.random(m) + .1
        w = w / w.sum()
        if rng.random() < .4:
            w = [float(v) for v in w]
    k0 = int(rng.integers(0, 3))
    if k0 == 0:
        x0 = start(rng, n, cplx)
    elif k0 == 1:
        x0 = vec(rng, n * m, cplx).reshape(m, n)
    else:
        x0 = [vec(rng, n, cplx) for _ in range(m)]
    tol = 0. if rng.random() < .7 else gen.logu(rng, 1e-4, .3)
    u = rng.random() < .3 and g is None

    def call(niter, cb, show, over):
        return O().primal.PPXA([lib(u, f) for f in fs], x0, tau, eta=eta, weights=w, niter=niter, tol=over.get("tol", tol), callback=cb, show=show)

    def ref(niter, pert, over):
        tl = over.get("tol", tol)
        W = np.ones(m) / m if w is None else np.asarray(w)
        y = np.array(x0) if k0 else np.tile(x0, (m, 1))
        y = P0(y, pert)
        x = W @ y
        for _ in range(niter):
            xo = x
            p = np.array([fs[i].prox(y[i], tau / W[i]) for i in range(m)])
            pn = W @ p
            y = y + eta * (2 * pn - x - p)
            x = x + eta * (pn - x)
            yield (x,)
            ch = float(np.abs(x - xo).max())
            if tl > 0:
                tieless(ch, tl, tl)
            if ch < tl:
                return
    arrs = both(*fs)
    if isinstance(x0, list):
        arrs.update({f"x0[{i}]": v for i, v in enumerate(x0)})
    else:
        arrs["x0"] = x0
    if isinstance(w, np.ndarray):
        arrs["weights"] = w
    return Run("PPXA", call, ref, arrays=arrs, tol=tol, opts=dict(f=[f.name for f in fs], tau=tau, eta=eta, weights=str(w), start=k0, tol=tol), x0=x0,
               specs=fs, data=dict(fs=fs))


def b_consensus(rng, cplx=False, g=None):
    n = g.n if g is not None else gen.size(rng, 1, 6, 40)
    m = int(rng.integers(1, 5))
    fs = [anyf(rng, n, cplx, False) for _ in range(m)]
    if g is not None:
        fs[0] = g
    tau = gen.step(rng, .1, 5)
    x0 = start(rng, n, cplx)
    tol = 0. if rng.random() < .7 else gen.logu(rng, 1e-4, .3)
    u = rng.random() < .3 and g is None

    def call(niter, cb, show, over):
        return O().primal.ConsensusADMM([lib(u, f) for f in fs], x0, tau, niter=niter, tol=over.get("tol", tol), callback=cb, show=show)

    def ref(niter, pert, over):
        tl = over.get("tol", tol)
        xb = P0(x0, pert)
        y = np.zeros((m, n), dtype=x0.dtype)
        for _ in range(niter):
            xo = xb
            x = np.array([fs[i].prox(xb - y[i], tau) for i in range(m)])
            xb = x.mean(axis=0)
            y = y + x - xb
            yield (xb,)
            ch = float(np.abs(xb - xo).max())
            if tl > 0:
                tieless(ch, tl, tl)
            if ch < tl:
                return
    return Run("ConsensusADMM", call, ref, arrays=dict(x0=x0, **both(*fs)), tol=tol, opts=dict(f=[f.name for f in fs], tau=tau, tol=tol), x0=x0,
               specs=fs, data=dict(fs=fs))


def b_primaldual(rng, cplx=False, f=None):
    n = f.n if f is not None else gen.size(rng, 1, 6, 40)
    p = gen.size(rng, 1, 6, 40)
    A = gen.mat(rng, p, n, cplx)
    f = f or anyf(rng, n, cplx, False)
    g = anyf(rng, p, cplx, False)
    L2 = np.linalg.norm(A, 2) ** 2
    tau = gen.step(rng, .05, 2)
    mu = float(rng.uniform(.2, 1.)) / (tau * L2)
    kt = int(rng.integers(0, 4))
    tv, mv = tau * rng.uniform(.3, 1, 400), mu * rng.uniform(.3, 1, 400)
    theta = float(rng.choice([1., 1., 0., .5, rng.uniform(0, 1)]))
    gfirst = bool(rng.random() < .5)
    x0 = start(rng, n, cplx)
    y0 = vec(rng, p, cplx) if rng.random() < .5 else None
    z = vec(rng, n, cplx, 1.) if rng.random() < .5 else None
    cy, ry = bool(rng.random() < .5), bool(rng.random() < .5)
    Ao = gen.linop(rng, A)
    u, ug = rng.random() < .3 and not hasattr(f, "reset"), rng.random() < .3

    def steps(niter):
        return (tv[:niter].copy() if kt & 1 else tau), (mv[:niter].copy() if kt & 2 else mu)

    def call(niter, cb, show, over):
        t, q = steps(niter)
        return O().primaldual.PrimalDual(lib(u, f), lib(ug, g), Ao, x0, t, q, y0=y0, z=z, theta=theta, niter=niter, gfirst=gfirst, callback=cb,
                                         callbacky=cy, returny=over.get("returny", ry), show=show)

    def ref(niter, pert, over):
        AH = A.conj().T
        t, q = steps(niter)
        t, q = np.broadcast_to(t, (niter,)), np.broadcast_to(q, (niter,))
        x = P0(x0, pert)
        y = np.zeros(p, dtype=x.dtype) if y0 is None else y0.copy()
        xh = x
        zz = 0 if z is None else z
        for k in range(niter):
            xo = x
            if gfirst:
                y = dual(g, y + q[k] * (A @ xh), q[k])
                x = f.prox(x - t[k] * (AH @ y + zz), t[k])
                xh = x + theta * (x - xo)
            else:
                x = f.prox(x - t[k] * (AH @ y + zz), t[k])
                xh = x + theta * (x - xo)
                y = dual(g, y + q[k] * (A @ xh), q[k])
            yield (x, y)
    arrs = dict(x0=x0, A=A, **both(f, g))
    if y0 is not None:
        arrs["y0"] = y0
    if z is not None:
        arrs["z"] = z
    return Run("PrimalDual", call, ref, arrays=arrs, ncb=2 if cy else 1,
               opts=dict(f=f.name, g=g.name, tau=tau, mu=mu, steps=kt, theta=theta, gfirst=gfirst, y0=y0 is not None, z=z is not None, callbacky=cy,
                         returny=ry), x0=x0, specs=[f, g], ret=lambda r: r if isinstance(r, tuple) else (r,),
               data=dict(f=f, g=g, A=A, z=z, theta=theta))


def b_adaptive(rng, cplx=False, f=None):
    n = f.n if f is not None else gen.size(rng, 1, 6, 40)
    p = gen.size(rng, 1, 6, 40)
    A = gen.mat(rng, p, n, cplx)
    f = f or anyf(rng, n, cplx, False)
    g = anyf(rng, p, cplx, False)
    tau = gen.step(rng, .02, 5)
    mu = float(rng.uniform(.2, 1.)) / (tau * np.linalg.norm(A, 2) ** 2)
    alpha, eta = relaxation(rng, 1), (float(rng.uniform(.5, .99)) if rng.random() < .8 else float(rng.uniform(.05, .999)))
    s, delta = float(rng.choice([1., 1., 255., .1])), float(rng.uniform(1.05, 3))
    z = vec(rng, n, cplx, 1.) if rng.random() < .5 else None
    tol = 1e-10 if rng.random() < .6 else gen.logu(rng, 1e-3, .5)
    x0 = start(rng, n, cplx)
    Ao = gen.linop(rng, A)
    u, ug = rng.random() < .3 and not hasattr(f, "reset"), rng.random() < .3
    hist = {}

    def call(niter, cb, show, over):
        return O().primaldual.AdaptivePrimalDual(lib(u, f), lib(ug, g), Ao, x0, tau, mu, alpha=alpha, eta=eta, s=s, delta=delta, z=z, niter=niter,
                                                 tol=over.get("tol", tol), callback=cb, show=show)

    def ref(niter, pert, over):
        tl = over.get("tol", tol)
        AH = A.conj().T
        zz = 0 if z is None else z
        T, M, a = tau, mu, alpha
        x = P0(x0, pert)
        y = np.zeros(p, dtype=x.dtype)
        aty = np.zeros(n, dtype=x.dtype)
        ax = A @ x
        ts, ms, as_ = [T], [M], [a]
        hist["steps"] = (ts, ms, as_)
        for k in range(niter):
            xo, yo, axo, atyo = x, y, ax, aty
            x = f.prox(x - T * (aty + zz), T)
            ax = A @ x
            y = dual(g, y + M * (2 * ax - axo), M)
            aty = AH @ y
            P_ = float(np.linalg.norm((xo - x) / T - (atyo - aty)))
            D_ = float(np.linalg.norm((yo - y) / M - (axo - ax)))
            # residuals at rounding level: their comparison cannot be decided
            noise = 1e-16 + 1e-13 * (np.abs(x).max() + np.abs(xo).max()) / min(T, 1.) + 1e-13 * (np.abs(y).max() + np.abs(ax).max() + np.abs(axo).max()) / min(M, 1.)
            if min(P_, D_, s * D_) < 1e6 * noise or a < 1e-12:
                raise Undecided()
            tieless(P_, s * D_ * delta, 1e-3 * (P_ + s * D_))
            tieless(P_, s * D_ / delta, 1e-3 * (P_ + s * D_))
            if P_ > s * D_ * delta:
                T, M, a = T / (1 - a), M * (1 - a), a * eta
            elif P_ < s * D_ / delta:
                T, M, a = T * (1 - a), M / (1 - a), a * eta
            ts.append(T)
            ms.append(M)
            as_.append(a)
            yield (x,)
            tieless(P_, tl, tl)
            tieless(D_, tl, tl)
            if P_ <= tl or D_ <= tl:
                return
    arrs = dict(x0=x0, A=A, **both(f, g))
    if z is not None:
        arrs["z"] = z
    return Run("AdaptivePrimalDual", call, ref, arrays=arrs, tol=tol,
               opts=dict(f=f.name, g=g.name, tau=tau, mu=mu, alpha=alpha, eta=eta, s=s, delta=delta, z=z is not None, tol=tol), x0=x0, specs=[f, g],
               ret=lambda r: (r[0],), data=dict(hist=hist, f=f, g=g, A=A, z=z, delta=delta, s=s, eta=eta, alpha=alpha, tau=tau, mu=mu))


# ------------------------------------------------------------------------------- bilinear
class Bil:
    """Reference of the factorised low-rank misfit."""

    def __init__(self, n, k, m, d, B=None):
        self.n, self.k, self.m, self.d, self.B = n, k, m, d, B

    def M(self, x, y):
        v = (x.reshape(self.n, self.k) @ y.reshape(self.k, self.m)).ravel()
        return v if self.B is None else self.B @ v

    def f(self, x, y):
        return .5 * float(np.sum(np.abs(self.d - self.M(x, y)) ** 2))

    def res(self, x, y):
        r = self.d - self.M(x, y)
        return (r if self.B is None else self.B.conj().T @ r).reshape(self.n, self.m)

    def gx(self, x, y):
        return -(self.res(x, y) @ y.reshape(self.k, self.m).conj().T).ravel()

    def gy(self, x, y):
        return -(x.reshape(self.n, self.k).conj().T @ self.res(x, y)).ravel()

    def lx(self, x):
        X = x.reshape(self.n, self.k)
        return float(np.linalg.norm(X.conj().T @ X))

    def ly(self, y):
        Y = y.reshape(self.k, self.m)
        return float(np.linalg.norm(Y @ Y.conj().T))


class Had:
    """Reference of the entrywise product misfit (a bilinear model of the user)."""
    B = None

    def __init__(self, n, d):
        self.n, self.k, self.m, self.d = n, 1, n, d

    def M(self, x, y):
        return x * y

    def f(self, x, y):
        return .5 * float(np.sum(np.abs(self.d - x * y) ** 2))

    def gx(self, x, y):
        return (x * y - self.d) * np.conj(y)

    def gy(self, x, y):
        return (x * y - self.d) * np.conj(x)

    def lx(self, x):
        return float(np.max(np.abs(x)) ** 2)

    ly = lx


def userbilinear(rng, cplx=False):
    n = gen.size(rng, 1, 6, 40)
    d = vec(rng, n, cplx)
    X, Y = vec(rng, n, cplx, 1.), vec(rng, n, cplx, 1.)
    b = Had(n, d)

    def make(flat=True):
        from pyproximal.utils.bilinear import BilinearOperator

        class HadOp(BilinearOperator):
            def __init__(self):
                super().__init__()
                self.sizex = self.sizey = n
                self.x, self.y = X.copy(), Y.copy()

            def __call__(self, x, y=None):
                if y is None:
                    x, y = x[:n], x[n:]
                return b.f(x, y)

            def gradx(self, x):
                return b.gx(x, self.y)

            def grady(self, y):
                return b.gy(self.x, y)

            def grad(self, xy):
                return np.hstack([self.gradx(xy[:n]), self.grady(xy[n:])])

            def lx(self, x):
                return b.lx(x)

            def ly(self, y):
                return b.ly(y)
        return HadOp()
    return b, make, X, Y


def bilinear(rng, cplx=False, op=None):
    n, k, m = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
    useop = rng.random() < .4 if op is None else op
    B = None
    nd = n * m
    if useop:
        nd = int(rng.integers(1, n * m + 3))
        B = gen.mat(rng, nd, n * m, cplx)
    d = vec(rng, nd, cplx)
    X, Y = vec(rng, n * k, cplx, 1.).reshape(n, k), vec(rng, k * m, cplx, 1.).reshape(k, m)
    b = Bil(n, k, m, d, B)
    Bop = None if B is None else gen.linop(rng, B)

    def make(flat=True):
        from pyproximal.utils.bilinear import LowRankFactorizedMatrix
        return LowRankFactorizedMatrix(X.copy(), Y.copy(), d, Op=Bop)
    return b, make, X, Y


def b_palm(rng, cplx=False, g=None, inertial=False):
    b, make, X, Y = userbilinear(rng, cplx) if rng.random() < .2 else bilinear(rng, cplx)
    nx, ny = X.size, Y.size
    x0, y0 = vec(rng, nx, cplx, 1.), vec(rng, ny, cplx, 1.)
    noL = b.B is not None
    gf = None if noL or rng.random() < .4 else float(rng.uniform(1.01, 3))
    gg = None if noL or rng.random() < .4 else float(rng.uniform(1.01, 3))
    pf = anyf(rng, nx, cplx, False) if rng.random() < .7 else None
    pg = anyf(rng, ny, cplx, False) if rng.random() < .7 else None
    beta = float(rng.choice([.5, .3, .8]))
    nb = int(rng.choice([100, 4]))
    a = [1., 1.] if rng.random() < .3 else [float(v) for v in rng.uniform(0, .9, 2)]
    u = rng.random() < .3

    def call(niter, cb, show, over):
        fo, go = None if pf is None else lib(u, pf), None if pg is None else lib(u, pg)
        if inertial:
            return O().palm.iPALM(make(), fo, go, x0, y0, gammaf=gf, gammag=gg, a=a, beta=beta, niter=niter, niterback=nb, callback=cb, show=show)
        return O().palm.PALM(make(), fo, go, x0, y0, gammaf=gf, gammag=gg, beta=beta, niter=niter, niterback=nb, callback=cb, show=show)

    def ref(niter, pert, over):
        px = (lambda v, t: v) if pf is None else pf.prox
        py = (lambda v, t: v) if pg is None else pg.prox
        x, y = P0(x0, pert), P0(y0, pert)
        xo, yo = x, y
        tf = tg = 1.
        A_ = a if inertial else (0., 0.)

        def back(z, val, grad, prox, t):
            g0, f0 = grad(z), val(z)
            v = z
            for _ in range(nb):
                v = prox(z - t * g0, t)
                d = v - z
                ft = f0 + C.rdot(g0, d) + float(np.sum(np.abs(d) ** 2)) / (2 * t)
                fv = val(v)
                if np.linalg.norm(d) > 0:
                    tieless(fv - ft, 0, abs(fv) + abs(f0))
                if fv <= ft or t < 1e-12:
                    break
                t = t * beta
            return v, t
        for _ in range(niter):
            z = x + A_[0] * (x - xo)
            xo = x
            if gf is not None:
                c = gf * b.ly(y)
                if c < 1e-8:
                    raise Undecided()
                x = px(z - b.gx(z, y) / c, 1 / c)
                if np.abs(x).max() > 1e6:
                    raise Undecided()
            else:
                x, tf = back(z, lambda v: b.f(v, y), lambda v: b.gx(v, y), px, tf)
            z = y + A_[1] * (y - yo)
            yo = y
            if gg is not None:
                c = gg * b.lx(x)
                if c < 1e-8:
                    raise Undecided()
                y = py(z - b.gy(x, z) / c, 1 / c)
            else:
                y, tg = back(z, lambda v: b.f(x, v), lambda v: b.gy(x, v), py, tg)
            if max(np.abs(x).max(), np.abs(y).max()) > 1e6:
                raise Undecided()
            yield (x, y)
    sp = [s for s in (pf, pg) if s is not None]
    arrs = dict(x0=x0, y0=y0, d=b.d, **both(*sp))
    if b.B is not None:
        arrs["B"] = b.B
    return Run("iPALM" if inertial else "PALM", call, ref, arrays=arrs, ncb=2,
               opts=dict(f=pf and pf.name, g=pg and pg.name, gammaf=gf, gammag=gg, a=a if inertial else None, beta=beta, niterback=nb, op=b.B is not None,
                         shape=(b.n, b.k, b.m)), x0=x0, specs=sp, ret=lambda r: r, data=dict(b=b, pf=pf, pg=pg, gf=gf, gg=gg))


def b_ipalm(rng, cplx=False, g=None):
    return b_palm(rng, cplx, g, True)


def b_apg(rng, cplx=False, g=None):
    return b_proximalgradient(rng, cplx, g, alias=True)


PG = dict(ProximalPoint=b_proximalpoint, ProximalGradient=b_proximalgradient, AcceleratedProximalGradient=b_apg, MultiRHS=b_pg_multirhs,
          Anderson=b_anderson, GeneralizedProximalGradient=b_gpg, TwIST=b_twist)
SPLIT = dict(HQS=b_hqs, ADMM=b_admm, ADMML2=b_admml2, LinearizedADMM=b_linadmm, DRS=b_drs, PPXA=b_ppxa, ConsensusADMM=b_consensus)
PD = dict(PrimalDual=b_primaldual, AdaptivePrimalDual=b_adaptive)
PALMS = dict(PALM=b_palm, iPALM=b_ipalm)
ALL = {**PG, **SPLIT, **PD, **PALMS}
NOCPLX = set()


def pick(m, table, cplx_frac=.2):
    names = list(table)
    nm = names[m.index % len(names)]
    c = nm not in NOCPLX and m.rng.random() < cplx_frac
    m.event("solver:" + nm + ("[complex]" if c else ""))
    return table[nm](m.rng, c)


def lockstep(m, run, niter, **over):
    """Compare every iterate handed to the callback with the reference recursion."""
    want, und = ref_trace(run, niter, **over)
    if und and run.name in ("PALM", "iPALM"):
        niter = len(want)       # the model degenerates (zero Lipschitz constant) or diverges afterwards
    seen, res = trace(run, niter, **over)
    pert, _ = ref_trace(run, niter, pert=1e-11, **over)
    m.describe(solver=run.name, niter=niter, **{k: str(v) for k, v in run.opts.items()})
    good = True
    if not und:
        good &= m.ok(len(seen) == len(want), "the callback is called once per iteration of the documented recursion",
                     solver=run.name, got=len(seen), want=len(want), opts=run.opts)
        if not good:
            return seen, res, want, und
    else:
        m.event("recursions cut at a rounding tie")
    K = min(len(want), len(seen))
    for k in range(K):
        w, s = want[k], seen[k]
        if len(s) != run.ncb:
            good &= m.ok(False, "callback signature", solver=run.name, got=len(s), want=run.ncb)
            break
        for j in range(run.ncb):
            sc = 1. + max(float(np.abs(v).max(initial=0)) for q in want[: k + 1] for v in q)
            sens = float(np.abs(pert[k][j] - w[j]).max(initial=0)) if k < len(pert) else np.inf
            tol = sc * run.tie * (1 + k / 10) + 1e4 * (sens if np.isfinite(sens) else 1e99)
            if tol > 1e-3 * sc:
                m.event("iterates too sensitive to compare")
                break
            good &= m.close(s[j], w[j], "iterate equals the documented recursion", tol, solver=run.name, iteration=k + 1, component=j,
                            opts=run.opts)
        m.event("iterates compared")
        if not good:
            break
    return seen, res, want, und
