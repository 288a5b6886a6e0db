"""P23: segmentation returns class probabilities of its convex model."""
import numpy as np

import gen
import solvers as S
import wraps as W

PROP = "P23"
RULE = ("one case = one segmentation of drawn data (one to four axes), classes, noise levels, extra term and start, its probabilities, labels and objective compared with the "
        "documented model; non-trivial when at least two labels or fractional probabilities occur")


def seg(*a, **k):
    return S.O().segmentation.Segment(*a, **k)


def draw(rng, small=False):
    nd = int(rng.choice([1, 2, 2, 2, 3, 4]))
    hi = {1: 12, 2: 6, 3: 4, 4: 3}[nd] if not small else {1: 6, 2: 4, 3: 3, 4: 2}[nd]
    dims = tuple(int(v) for v in rng.integers(1 if rng.random() < .2 else 2, hi + 1, nd))
    n = int(np.prod(dims))
    K = int(rng.integers(1, 6)) if not small else int(rng.integers(2, 4))
    cl = rng.standard_normal(K) * 2
    if rng.random() < .15 and K > 1:
        cl[1] = cl[0]
    y = (cl[rng.integers(0, K, n)] + float(rng.choice([0., .3, 1.])) * rng.standard_normal(n)).reshape(dims)
    if rng.random() < .1:
        y = np.full(dims, float(cl[0]))
    if rng.random() < .1:
        y, cl = np.round(y).astype(int), np.round(cl * 2)
    sigma, alpha = gen.logu(rng, .1, 5), gen.logu(rng, .05, 3)
    cs = rng.random(K) * 2 + .2 if rng.random() < .5 else None
    z = rng.standard_normal(n * K) * .5 if rng.random() < .4 else None
    x0 = None
    if rng.random() < .5:
        x0 = rng.random((K, n)) * (1 if rng.random() < .7 else 5)
        x0 = x0.ravel()
    return dims, n, K, cl, y, sigma, alpha, cs, z, x0


def cost(n, K, cl, y, sigma, cs, z):
    g = sigma / 2 * (y.reshape(1, n) - cl[:, None]) ** 2
    if cs is not None:
        g = g / cs[:, None]
    return g if z is None else g + z.reshape(K, n)


def shape_checks(m, x, lab, dims, n, K, tol=1e-6):
    ok = m.ok(isinstance(x, np.ndarray) and x.shape == (n, K), "one row of class weights per sample", got=getattr(x, "shape", None), want=(n, K))
    ok &= m.ok(isinstance(lab, np.ndarray) and lab.shape == dims and lab.dtype.kind in "iu", "labels are shaped like the data", got=getattr(lab, "shape", None))
    if not ok:
        return False
    m.ok(np.all(np.isfinite(x)), "weights are finite", x=x)
    m.le(float(-x.min()), 0, "weights are non-negative", 1e-12)
    m.le(float(np.abs(x.sum(1) - 1).max()), 0, "weights of a sample sum to one", tol * K)
    l = lab.ravel()
    m.ok(np.all((l >= 0) & (l < K)), "labels name a class", labels=lab)
    if not m.fails:
        m.ok(np.array_equal(x[np.arange(n), l], x.max(1)), "the label is the class with the largest weight", x=x, labels=lab)
    return not m.fails


def probabilities(m):
    rng = m.rng
    dims, n, K, cl, y, sigma, alpha, cs, z, x0 = draw(rng)
    if rng.random() < .2:
        alpha = float(rng.choice([1e-8, 1e3]))
    if rng.random() < .1:
        sigma = float(rng.choice([1e-6, 1e3]))
    niter = int(rng.choice([1, 2, 5, 20, 60]))
    ks = [None, {}, dict(engine="numpy"), dict(engine="numba"), dict(maxiter=200, xtol=1e-10)][int(rng.integers(0, 5))]
    m.describe(dims=dims, K=K, sigma=sigma, alpha=alpha, cl=cl, cs=cs, z=z is not None, x0=x0 is not None, niter=niter, simplex=str(ks))
    keep = [None if v is None else np.array(v, copy=True) for v in (y, cl, cs, z, x0)]
    seen = []
    x, lab = seg(y, cl, sigma, alpha, clsigmas=cs, z=z, niter=niter, x0=x0, callback=lambda v: seen.append(np.array(v, copy=True)), kwargs_simplex=ks)
    for a, b in zip((y, cl, cs, z, x0), keep):
        m.ok(a is None or np.array_equal(a, b), "inputs are left alone")
    if not shape_checks(m, x, lab, dims, n, K, 1e-6 * (1 + sigma + (0 if z is None else 3))):
        return
    m.ok(len(seen) == niter, "the callback sees every iteration", got=len(seen), want=niter)
    m.ok(np.array_equal(seen[-1], x.T.ravel()), "the result is the last iterate")
    x2, lab2 = seg(y, cl, sigma, alpha, clsigmas=cs, z=z, niter=niter, x0=x0, kwargs_simplex=ks)
    m.ok(np.array_equal(x, x2) and np.array_equal(lab, lab2), "the same call gives the same answer")
    m.event(f"axes:{len(dims)} classes:{K}")
    if len(set(lab.ravel().tolist())) > 1 or np.any((x > .01) & (x < .99)):
        m.nontrivial(y.tobytes(), cl.tobytes(), niter)


def lockstep(m):
    rng = m.rng
    run = W.b_segment(rng, nd=int(rng.choice([1, 2, 2, 3, 4])))
    seen, res, want, und = S.lockstep(m, run, int(rng.choice([1, 2, 5, 12, 40])))
    if not m.fails and seen:
        m.close(res[0].T.ravel(), seen[-1][0], "the result is the last iterate", 0)
        if np.any(seen[0][0] != seen[-1][0]):
            m.nontrivial(seen[-1][0].tobytes())


def symmetry(m):
    rng = m.rng
    dims, n, K, cl, y, sigma, alpha, cs, z, x0 = draw(rng)
    y = y.astype(float)
    niter = int(rng.choice([1, 3, 10, 40]))
    ks = dict(maxiter=300, xtol=1e-13)
    kw = lambda **o: dict(dict(clsigmas=cs, z=z, niter=niter, x0=x0, kwargs_simplex=ks), **o)
    x, lab = seg(y, cl, sigma, alpha, **kw())
    if not shape_checks(m, x, lab, dims, n, K):
        return
    m.describe(dims=dims, K=K, sigma=sigma, alpha=alpha, cs=cs, z=z is not None, x0=x0 is not None, niter=niter)
    clear = np.sort(x, 1)
    clear = np.ones(n, bool) if K == 1 else clear[:, -1] - clear[:, -2] > 1e-6
    tol = 1e-7 * (1 + niter / 10) * (1 + sigma)
    rows = lambda v, p: None if v is None else np.ascontiguousarray(v.reshape(K, n)[p]).ravel()

    # relabelling
    p = rng.permutation(K)
    inv = np.argsort(p)
    xp, lp = seg(y, cl[p], sigma, alpha, **kw(clsigmas=None if cs is None else cs[p], z=rows(z, p), x0=rows(x0, p)))
    m.close(xp, x[:, p], "relabelling the classes relabels the weights", tol, p=p, niter=niter)
    m.ok(np.array_equal(inv[lab.ravel()[clear]], lp.ravel()[clear]), "relabelling the classes relabels the labels", p=p, a=lab, b=lp)

    # permuted axes
    q = rng.permutation(len(dims))
    I = np.arange(n).reshape(dims).transpose(q).ravel()
    d2 = tuple(dims[i] for i in q)
    mv = lambda v: None if v is None else np.ascontiguousarray(v.reshape(K, n)[:, I]).ravel()
    yt = y.ravel()[I].reshape(d2)
    if rng.random() < .3:
        yt = y.transpose(q)           # a strided view of the caller's data
    xt, lt = seg(yt, cl, sigma, alpha, **kw(z=mv(z), x0=mv(x0)))
    m.close(xt, x[I], "permuting the axes permutes the weights", tol, axes=q, niter=niter, dims=dims)
    if lt.shape == d2:
        m.ok(np.array_equal(lt.ravel()[clear[I]], lab.ravel()[I][clear[I]]), "permuting the axes permutes the labels", axes=q)
    else:
        m.ok(False, "labels are shaped like the data", got=lt.shape, want=d2)

    # a singleton axis changes nothing once the step size is accounted for; shift and scale of the data always
    c = float(rng.standard_normal() * 10)
    xs, _ = seg(y + c, cl + c, sigma, alpha, **kw())
    m.close(xs, x, "shifting data and classes changes nothing", tol * (1 + abs(c)), shift=c)
    s = float(rng.choice([-1., .1, 7.]))
    xs, _ = seg(y * s, cl * s, sigma / s ** 2, alpha, **kw())
    m.close(xs, x, "scaling data, classes and weight changes nothing", tol * 10, scale=s)
    if cs is not None:
        t = gen.logu(rng, .2, 5)
        xs, _ = seg(y, cl, sigma * t, alpha, **kw(clsigmas=cs * t))
        m.close(xs, x, "noise levels and weight only matter by their ratio", tol, factor=t)
    else:
        xs, _ = seg(y, cl, sigma, alpha, **kw(clsigmas=np.ones(K)))
        m.close(xs, x, "unit noise levels are the default", tol)
    # the extra term may absorb the data term
    g = cost(n, K, cl, y, sigma, cs, z)
    far = np.zeros(dims)
    xs, _ = seg(far, np.zeros(K), 1., alpha, **kw(clsigmas=None, z=g.ravel()))
    m.close(xs, x, "data term and extra term add up", tol * 10)
    xs, _ = seg(y, cl, sigma, alpha, **kw(z=(0 if z is None else z) + np.tile(rng.standard_normal(n) * .3, K)))
    m.close(xs, x, "an extra term equal for all classes changes nothing", tol * 10)
    m.event(f"symmetries, axes:{len(dims)}")
    if np.any((x > .01) & (x < .99)) or len(set(lab.ravel().tolist())) > 1:
        m.nontrivial(y.tobytes(), niter)


def optimum(m):
    """Certified by a feasible point of the dual: no probabilities can have a lower objective."""
    rng = m.rng
    dims, n, K, cl, y, sigma, alpha, cs, z, x0 = draw(rng, True)
    c = cost(n, K, cl, y, sigma, cs, z)
    nd = len(dims)
    D = W.grad_fwd(dims)
    amp = lambda X: np.sqrt(((X @ D.T).reshape(K, nd, n) ** 2).sum(1))
    primal = lambda X: float((X * c).sum() + .5 * alpha * amp(X).sum())
    import catalog as C
    # an independent primal-dual run provides the dual certificate
    X = np.full((K, n), 1 / K)
    Xh, Y = X, np.zeros((K, nd, n))
    s = gen.logu(rng, .3, 1)
    tau, mu = s, .99 / (s * 4 * nd)
    best = -np.inf
    P_ = np.inf
    sc = 1 + float(np.abs(c).max()) + alpha
    for k in range(6000):
        V = Y + mu * (Xh @ D.T).reshape(K, nd, n)
        Y = V / np.maximum(1, np.sqrt((V ** 2).sum(1)) / (.5 * alpha))[:, None]
        AT = Y.reshape(K, nd * n) @ D
        Xo = X
        Z = X - tau * (AT + c)
        U = -np.sort(-Z, 0)
        css = (np.cumsum(U, 0) - 1) / np.arange(1, K + 1)[:, None]
        r = (U > css).sum(0) - 1
        X = np.maximum(Z - css[r, np.arange(n)], 0)
        Xh = 2 * X - Xo
        if k % 50 == 49:
            best = max(best, float((AT + c).min(0).sum()))
            P_ = min(P_, primal(X))
            if P_ - best < 1e-7 * sc:
                break
    if P_ - best > 1e-3 * sc:
        m.event("certificate not tight: skipped")
        return
    m.describe(dims=dims, K=K, sigma=sigma, alpha=alpha, gap=P_ - best)
    N = 800
    x, lab = seg(y, cl, sigma, alpha, clsigmas=cs, z=z, niter=N, x0=x0)
    if not shape_checks(m, x, lab, dims, n, K):
        return
    J = primal(x.T)
    m.le(best, J, "no probabilities beat the dual bound", 1e-6 * sc * n)
    if J - best > 2e-3 * sc:
        J0 = J
        x, lab = seg(y, cl, sigma, alpha, clsigmas=cs, z=z, niter=6 * N, x0=x0)
        J = primal(x.T)
        if J - best > 2e-3 * sc and J - best < .5 * (J0 - best):
            m.event("still converging")
            return
    m.le(J, best, "the weights approach the optimum of the documented model", 2e-3 * sc, dims=dims, K=K, sigma=sigma, alpha=alpha, cs=cs, dual=best)
    m.event(f"optimum certified, axes:{nd}")
    if np.any((x > .01) & (x < .99)) or len(set(lab.ravel().tolist())) > 1:
        m.nontrivial(y.tobytes(), alpha)


def extremes(m):
    """No regularisation: the best class per sample. Strong regularisation: one distribution everywhere."""
    rng = m.rng
    dims, n, K, cl, y, sigma, alpha, cs, z, x0 = draw(rng)
    c = cost(n, K, cl, y, sigma, cs, z)
    m.describe(dims=dims, K=K, sigma=sigma, cs=cs)
    if m.index % 2:
        o = np.sort(c, 0)
        clear = np.ones(n, bool) if K == 1 else o[1] - o[0] > .05
        x, lab = seg(y, cl, sigma, 1e-9, clsigmas=cs, z=z, niter=int(40 + 40 / .05), x0=x0)
        if not shape_checks(m, x, lab, dims, n, K):
            return
        want = c.argmin(0)
        m.ok(np.array_equal(lab.ravel()[clear], want[clear]), "without regularisation every sample takes its nearest class", got=lab, want=want.reshape(dims), cost=c)
        m.le(float((1 - x[np.arange(n), want])[clear].max(initial=0)), 0, "without regularisation the nearest class has all the weight", 1e-4)
        m.event("no regularisation")
    else:
        t = c.sum(1)
        o = np.sort(t)
        if n == 1 or K == 1 or o[1] - o[0] < .1 or max(dims) > 4:
            return
        x, lab = seg(y, cl, sigma, 20 * float(np.abs(c).sum()), clsigmas=cs, z=z, niter=3000, x0=x0)
        if not shape_checks(m, x, lab, dims, n, K):
            return
        J = float((x.T * c).sum())
        m.event("strong regularisation")
        if np.ptp(x, axis=0).max() < 1e-3:
            m.le(J, o[0], "strong regularisation gives the class that is best on the whole", .3 * (o[1] - o[0]) + 1e-2 * np.abs(t).max(), cost=t, x=x[0])
    m.nontrivial(y.tobytes())


QUICK_MULT = 1
GROUPS = [("probabilities", probabilities, 120, 1500), ("lockstep", lockstep, 60, 1000), ("symmetry", symmetry, 60, 800), ("optimum", optimum, 20, 240), ("extremes", extremes, 16, 160)]
