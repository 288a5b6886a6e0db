"""Wrappers around the solvers (Bregman, plug-and-play, segmentation, SR3) with second implementations."""
import numpy as np

import catalog as C
import gen
import solvers as S
from solvers import start, P, O, Run, P0, anyf, smooth, lib, vec, both, tieless, Undecided, dual


# ---------------------------------------------------------------- inner solvers, default options, written again
def r_admm(pf, pg, x0, tau, niter, gfirst=False, z0=None):
    x, z = x0, x0 if z0 is None else z0
    u = 0 * x0
    for _ in range(niter):
        if gfirst:
            z = pg(x + u, tau)
            x = pf(z - u, tau)
        else:
            x = pf(z - u, tau)
            z = pg(x + u, tau)
        u = u + x - z
    return x, z


def r_hqs(pf, pg, x0, tau, niter, gfirst=True):
    x, z = x0, x0
    for _ in range(niter):
        if gfirst:
            z = pg(x, tau)
            x = pf(z, tau)
        else:
            x = pf(z, tau)
            z = pg(x, tau)
    return x, z


def r_drs(pf, pg, x0, tau, niter, eta=1., gfirst=True):
    y = x0
    for _ in range(niter):
        a, b = (pg, pf) if gfirst else (pf, pg)
        x = a(y, tau)
        y = y + eta * (b(2 * x - y, tau) - x)
    return x, y


def r_pg(gf, pg, x0, tau, niter, acceleration=None, eta=1., epsg=1.):
    x = y = x0
    t = 1.
    for k in range(niter):
        xo = x
        x = pg(y - tau * gf(y), epsg * tau)
        x = y + eta * (x - y)
        om = 0.
        if acceleration == "vandenberghe":
            om = k / (k + 3)
        elif acceleration == "fista":
            to, t = t, (1 + np.sqrt(1 + 4 * t * t)) / 2
            om = (to - 1) / t
        y = x + om * (x - xo)
    return x


def r_ladmm(pf, pg, A, x0, tau, mu, niter):
    x = x0
    z = A @ x0
    u = 0 * z
    for _ in range(niter):
        x = pf(x - mu / tau * (A.conj().T @ (A @ x - z + u)), mu)
        z = pg(A @ x + u, tau)
        u = u + A @ x - z
    return x, z


def r_pd(pf, dg, A, x0, tau, mu, niter, theta=1., z=0, gfirst=True):
    x = xh = x0
    y = np.zeros(A.shape[0], dtype=x0.dtype)
    for _ in range(niter):
        xo = x
        if gfirst:
            y = dg(y + mu * (A @ xh), mu)
        x = pf(x - tau * (A.conj().T @ y + z), tau)
        xh = x + theta * (x - xo)
        if not gfirst:
            y = dg(y + mu * (A @ xh), mu)
    return x


INNER = ("ADMM", "HQS", "DouglasRachfordSplitting", "ProximalGradient", "LinearizedADMM", "PrimalDual", "user")


def b_bregman(rng, cplx=False, inner=None):
    n = int(rng.integers(1, 5))
    f = smooth(rng, n, cplx, gen.logu(rng, 1, 4))
    inner = inner or INNER[int(rng.integers(0, len(INNER)))]
    useA = inner in ("LinearizedADMM", "PrimalDual")
    p = int(rng.integers(1, 5)) if useA else n
    g = anyf(rng, p, cplx, False)
    A = gen.mat(rng, p, n, cplx) if useA else None
    Ao = gen.linop(rng, A) if useA else None
    alpha = 1. if rng.random() < .3 else gen.logu(rng, .2, 4)
    ind = g.ind
    if ind:
        alpha = 1. if rng.random() < .5 else alpha
    ni = int(rng.choice([1, 2, 5, 20]))
    warm = bool(rng.random() < .5)
    x0 = start(rng, n, cplx)
    z = rng.random()
    tolx = 1e-10 if z < .6 else (gen.logu(rng, 1e-3, .5) if z < .8 else 0.)
    tolf = 0. if rng.random() < .7 else gen.logu(rng, 1e-2, 3)
    kw = dict(niter=ni)
    if inner in ("ADMM", "HQS", "DouglasRachfordSplitting"):
        kw["tau"] = gen.step(rng, .1, 3)
        if rng.random() < .5:
            kw["gfirst"] = bool(rng.random() < .5)
        if inner == "DouglasRachfordSplitting" and rng.random() < .5:
            kw["eta"] = float(rng.uniform(.3, 1.7))
    elif inner == "ProximalGradient":
        kw["tau"] = float(rng.uniform(.3, 1)) / f.L
        if rng.random() < .5:
            kw["acceleration"] = str(rng.choice(["fista", "vandenberghe"]))
    elif inner == "LinearizedADMM":
        kw["tau"] = gen.step(rng, .1, 3)
        kw["mu"] = kw["tau"] * float(rng.uniform(.2, .95)) / np.linalg.norm(A, 2) ** 2
    elif inner == "PrimalDual":
        kw["tau"] = gen.step(rng, .1, 3)
        kw["mu"] = float(rng.uniform(.2, .95)) / (kw["tau"] * np.linalg.norm(A, 2) ** 2)
    u = bool(rng.random() < .3)
    uf = u or (f.name == "L2[Op,b]" and inner != "ProximalGradient" and not f.explicit)
    log = []

    def solver_user(pf_, pg_, x0, niter, extra=None):
        log.append((np.array(x0, copy=True), niter, extra))
        x = x0
        for _ in range(niter):
            x = pg_.prox(pf_.prox(x, .7), .3)
        return x
    if inner == "user":
        kw["extra"] = "marker"

    def call(niter, cb, show, over):
        o = O()
        solver = solver_user if inner == "user" else getattr(o.primal, inner, None) or getattr(o.primaldual, inner)
        kk = dict(kw)
        return o.bregman.Bregman(lib(uf, f), lib(u, g), x0, solver, A=Ao, alpha=alpha, niterouter=niter, warm=warm, tolx=over.get("tolx", tolx),
                                 tolf=over.get("tolf", tolf), bregcallback=cb, show=show, **kk)

    def solve(q, xs):
        def pf(v, t):
            return f.prox(v + t * alpha * q, t)

        def gf(v):
            return f.grad(v) - alpha * q

        def pg(v, t):
            return g.prox(v, alpha * t)

        def dg(v, t):
            return v - t * g.prox(v / t, alpha / t)
        k2 = {k: v for k, v in kw.items() if k not in ("niter", "extra")}
        if inner == "ADMM":
            return r_admm(pf, pg, xs, niter=ni, **k2)[0]
        if inner == "HQS":
            return r_hqs(pf, pg, xs, niter=ni, **k2)[0]
        if inner == "DouglasRachfordSplitting":
            return r_drs(pf, pg, xs, niter=ni, **k2)[0]
        if inner == "ProximalGradient":
            return r_pg(gf, pg, xs, niter=ni, **k2)
        if inner == "LinearizedADMM":
            return r_ladmm(pf, pg, A, xs, niter=ni, **k2)[0]
        if inner == "PrimalDual":
            return r_pd(pf, dg, A, xs, niter=ni, **k2)
        x = xs
        for _ in range(ni):
            x = pg(pf(x, .7), .3)
        return x

    def ref(niter, pert, over):
        tx, tf = over.get("tolx", tolx), over.get("tolf", tolf)
        s = P0(x0, pert)
        x, q = s, 0 * s
        for _ in range(niter):
            xo = x
            x = solve(q, xo if warm else s)
            q = q - f.grad(x) / alpha
            yield (x,)
            ch, fv = float(np.linalg.norm(x - xo)), f.f(x)
            if tx > 0 and (ch < 1e-6 and tx < 1e-6):
                raise Undecided()
            tieless(ch, tx, tx)
            if tf > 0:
                tieless(fv, tf, abs(tf) + abs(fv))
            if ch < tx or fv < tf:
                return
    arrs = dict(x0=x0, **both(f, g))
    if useA:
        arrs["A"] = A
    return Run("Bregman", call, ref, arrays=arrs, tol=tolx, tie=1e-8,
               opts=dict(f=f.name, g=g.name, inner=inner, alpha=alpha, warm=warm, tolx=tolx, tolf=tolf, **{"in_" + k: str(v) for k, v in kw.items()}), x0=x0,
               specs=[f, g], data=dict(f=f, g=g, A=A, alpha=alpha, log=log, inner=inner, ni=ni, warm=warm))


def b_pnp(rng, cplx=False, inner=None):
    sh = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(1, 4))))
    n = int(np.prod(sh))
    f = smooth(rng, n, cplx, gen.logu(rng, 1, 4))
    g = anyf(rng, n, cplx, False)
    names = ("ADMM", "HQS", "DouglasRachfordSplitting", "ProximalGradient", "LinearizedADMM", "PrimalDual", "default")
    inner = inner or names[int(rng.integers(0, len(names)))]
    x0 = start(rng, n, cplx)
    kw = {}
    A = None
    if inner in ("ADMM", "HQS", "DouglasRachfordSplitting", "default"):
        kw["tau"] = gen.step(rng, .1, 3)
        if rng.random() < .5:
            kw["gfirst"] = bool(rng.random() < .5)
    elif inner == "ProximalGradient":
        kw["tau"] = float(rng.uniform(.3, 1)) / f.L
        if rng.random() < .5:
            kw["acceleration"] = str(rng.choice(["fista", "vandenberghe"]))
        if rng.random() < .5:
            kw["epsg"] = gen.logu(rng, .2, 3)
    else:
        A = gen.mat(rng, n, n, cplx)
        nA = np.linalg.norm(A, 2) ** 2
        kw["tau"] = gen.step(rng, .1, 3)
        kw["mu"] = float(rng.uniform(.2, .95)) * (kw["tau"] / nA if inner == "LinearizedADMM" else 1 / (kw["tau"] * nA))
    Ao = None if A is None else gen.linop(rng, A)
    uf = f.name == "L2[Op,b]" and inner != "ProximalGradient" and not f.explicit
    log = []

    def den(x, t):
        log.append((x.shape, t))
        return g.prox(x.ravel(), t).reshape(x.shape)

    def call(niter, cb, show, over):
        o = O()
        k2 = dict(kw)
        if Ao is not None:
            k2["A"] = Ao
        if inner != "default":
            k2["solver"] = getattr(o.primal, inner, None) or getattr(o.primaldual, inner)
        d = sh if len(sh) > 1 or rng is None else sh
        return o.pnp.PlugAndPlay(lib(uf, f), den, d, x0, niter=niter, callback=cb, show=show, **k2)

    def ref(niter, pert, over):
        s = P0(x0, pert)
        for k in range(1, niter + 1):
            if inner in ("ADMM", "default"):
                yield (r_admm(f.prox, g.prox, s, niter=k, **kw)[0],)
            elif inner == "HQS":
                yield (r_hqs(f.prox, g.prox, s, niter=k, **kw)[0],)
            elif inner == "DouglasRachfordSplitting":
                yield (r_drs(f.prox, g.prox, s, niter=k, **kw)[0],)
            elif inner == "ProximalGradient":
                yield (r_pg(f.grad, g.prox, s, niter=k, **kw),)
            elif inner == "LinearizedADMM":
                yield (r_ladmm(f.prox, g.prox, A, s, niter=k, **kw)[0],)
            else:
                yield (r_pd(f.prox, lambda v, t: dual(g, v, t), A, s, niter=k, **kw),)
    arrs = dict(x0=x0, **both(f, g))
    if A is not None:
        arrs["A"] = A
    return Run("PlugAndPlay", call, ref, arrays=arrs, opts=dict(f=f.name, g=g.name, inner=inner, dims=sh, **{"in_" + k: str(v) for k, v in kw.items()}), x0=x0, specs=[f, g],
               ret=lambda r: (r[0],) if isinstance(r, tuple) else (r,), tie=1e-8, data=dict(log=log, g=g, dims=sh, inner=inner, kw=kw))


def grad_fwd(dims):
    """Matrix of forward differences (zero at the last sample), axis after axis."""
    n = int(np.prod(dims))
    idx = np.arange(n).reshape(dims)
    rows = []
    for ax in range(len(dims)):
        D = np.zeros((n, n))
        a = np.moveaxis(idx, ax, 0)
        for i in range(a.shape[0] - 1):
            D[a[i].ravel(), a[i].ravel()] = -1
            D[a[i].ravel(), a[i + 1].ravel()] = 1
        rows.append(D)
    return np.vstack(rows)


def b_segment(rng, cplx=False, nd=None):
    nd = nd or int(rng.choice([2, 2, 3]))
    dims = tuple(int(v) for v in (rng.integers(2, 5, nd) if nd < 4 else rng.integers(1, 4, nd)))
    n = int(np.prod(dims))
    K = int(rng.integers(1, 5))
    cl = rng.standard_normal(K) * 2
    y = (cl[rng.integers(0, K, n)] + .5 * rng.standard_normal(n)).reshape(dims)
    sigma, alpha = gen.logu(rng, .1, 5), gen.logu(rng, .05, 3)
    cs = rng.random(K) + .2 if rng.random() < .5 else None
    z = rng.standard_normal(n * K) * .5 if rng.random() < .4 else None
    x0 = None
    if rng.random() < .5:
        x0 = rng.random((K, n))
        x0 = (x0 / x0.sum(0)).ravel()
    ks = [None, {}, dict(engine="numpy"), dict(engine="numba"), dict(maxiter=200, xtol=1e-10)][int(rng.integers(0, 5))]

    def call(niter, cb, show, over):
        return O().segmentation.Segment(over.get("y", y), over.get("cl", cl), sigma, alpha, clsigmas=over.get("cs", cs), z=over.get("z", z), niter=niter,
                                        x0=over.get("x0", x0), callback=cb, show=show, kwargs_simplex=ks)

    def cost(over=None):
        g = sigma / 2 * (y.reshape(1, n) - cl[:, None]) ** 2
        if cs is not None:
            g = g / cs[:, None]
        g = g.ravel()
        return g if z is None else g + z
    D = grad_fwd(dims)

    def ref(niter, pert, over):
        c = cost()
        s = np.zeros(n * K) if x0 is None else x0
        s = P0(s, pert)
        L = 4. * nd
        tau, mu = 1., 1 / L
        x = xh = s
        Y = np.zeros((K, nd, n))
        for _ in range(niter):
            xo = x
            for k in range(K):
                v = Y[k] + mu * (D @ xh.reshape(K, n)[k]).reshape(nd, n)
                a = np.sqrt((v ** 2).sum(0))
                Y[k] = v / np.maximum(1, a / (.5 * alpha))
            AT = np.concatenate([D.T @ Y[k].ravel() for k in range(K)])
            v = (x - tau * (AT + c)).reshape(K, n)
            x = np.array([C.simplex_exact(v[:, i], 1.) for i in range(n)]).T.ravel()
            xh = 2 * x - xo
            yield (x,)
    arrs = dict(y=y, cl=cl)
    for k, v in (("clsigmas", cs), ("z", z), ("x0", x0)):
        if v is not None:
            arrs[k] = v
    return Run("Segment", call, ref, arrays=arrs, opts=dict(dims=dims, K=K, sigma=sigma, alpha=alpha, clsigmas=cs is not None, z=z is not None, x0=x0 is not None, simplex=str(ks)),
               x0=x0, ret=lambda r: (r[0].T.ravel(),), tie=1e-6, data=dict(dims=dims, n=n, K=K, cl=cl, y=y, sigma=sigma, alpha=alpha, cs=cs, z=z, cost=cost, D=D))


WRAPS = dict(Bregman=b_bregman, PlugAndPlay=b_pnp, Segment=b_segment)
