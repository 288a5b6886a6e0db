"""P24: Bregman, plug-and-play and SR3 solve what they wrap."""
import numpy as np
from scipy.optimize import minimize

import catalog as C
import gen
import solvers as S
import wraps as W

PROP = "P24"
RULE = ("one case = one Bregman or plug-and-play run compared iterate by iterate with a second implementation of wrapper and inner solver, or one "
        "sparse relaxed regression whose result is certified against an independent minimisation; non-trivial when the answer moves from its start")


def bregman(m):
    rng = m.rng
    run = W.b_bregman(rng, bool(rng.random() < .2), W.INNER[m.index % len(W.INNER)])
    d = run.data
    niter = int(rng.choice([1, 2, 3, 6, 15]))
    del d["log"][:]
    seen, res, want, und = S.lockstep(m, run, niter)
    m.event("inner:" + d["inner"])
    if m.fails:
        return
    m.close(np.asarray(res), seen[-1][0], "the result is the last outer iterate", 0, opts=run.opts)
    if d["inner"] == "user":
        lg = d["log"]
        m.ok(len(lg) == len(seen), "one inner solve per outer iteration", got=len(lg), want=len(seen), opts=run.opts)
        for k, (x0, ni, extra) in enumerate(lg):
            ref = run.x0 if k == 0 or not d["warm"] else seen[k - 1][0]
            m.close(x0, ref, "start handed to the inner solver", 0, k=k, opts=run.opts)
            m.ok(ni == d["ni"] and extra == "marker", "options reach the inner solver unchanged", got=(ni, extra))
    if len(seen) > 1:
        m.nontrivial(seen[-1][0].tobytes(), str(run.opts))


def limit(m):
    """Outer iterations of an exactly solved subproblem against the documented recursion solved by brute force."""
    rng = m.rng
    n = int(rng.integers(1, 5))
    f = S.smooth(rng, n, False, gen.logu(rng, 1, 3))
    g = S.anyf(rng, n, False, True)
    alpha = gen.logu(rng, .3, 3)
    K = int(rng.integers(1, 4))
    mu = float(np.linalg.eigvalsh(f.H).min())
    if mu < .05 or f.L / mu > 50:
        return
    o = S.O()
    xs = []
    warm = bool(rng.random() < .5)
    which = int(rng.integers(0, 3))
    fl = S.refop(f) if not f.explicit else f.make()
    if which == 0:
        kw = dict(solver=o.primal.ProximalGradient, tau=1 / f.L, niter=3000)
    elif which == 1:
        kw = dict(solver=o.primal.ADMM, tau=1 / np.sqrt(mu * f.L), niter=1500)
    else:
        kw = dict(solver=o.primal.DouglasRachfordSplitting, tau=1 / np.sqrt(mu * f.L), niter=1500)
    x0 = S.vec(rng, n, False)
    o.bregman.Bregman(fl, g.make(), x0, alpha=alpha, niterouter=K, warm=warm, tolx=0., tolf=-np.inf, bregcallback=lambda x: xs.append(x.copy()), **kw)
    q = np.zeros(n)
    m.describe(f=f.name, g=g.name, alpha=alpha, outer=K, solver=kw["solver"].__name__)
    for k in range(K):
        # optimality of x for f + alpha g - alpha q^T x: a proximal-gradient step leaves it in place
        x = xs[k]
        r = x - g.prox(x - (f.grad(x) - alpha * q) / f.L, alpha / f.L)
        m.le(float(np.abs(r).max()), 0, "each outer iterate solves the documented subproblem", 1e-6 * (1 + np.abs(x).max() + np.abs(x0).max()) * f.L / mu, k=k)
        q = q - f.grad(x) / alpha
        m.event("subproblems certified")
    m.nontrivial(xs[-1].tobytes())


def pnp(m):
    rng = m.rng
    run = W.b_pnp(rng, bool(rng.random() < .2))
    d = run.data
    del d["log"][:]
    niter = int(rng.choice([1, 2, 5, 20]))
    seen, res, want, und = S.lockstep(m, run, niter)
    m.event("inner:" + d["inner"])
    if m.fails:
        return
    m.ok(all(s == tuple(d["dims"]) for s, _ in d["log"]), "the denoiser sees the requested dimensions", got=[s for s, _ in d["log"]][:3], want=d["dims"])
    m.ok(len(d["log"]) == niter, "one denoising per iteration", got=len(d["log"]), want=niter, opts=run.opts)
    if d["inner"] != "PrimalDual":
        t = d["kw"]["tau"] * d["kw"].get("epsg", 1.)
        m.ok(all(abs(v - t) <= 1e-12 * t for _, v in d["log"]), "the denoiser gets the step of the solver", got=[v for _, v in d["log"]][:3], want=t, opts=run.opts)
    # the same solver fed with the proximal step itself
    o = S.O()
    g = d["g"]
    m.close(np.asarray(run.ret(res)[0]), seen[-1][0], "the result is the last iterate", 0, opts=run.opts)
    m.nontrivial(seen[-1][0].tobytes(), str(run.opts))


def sr3(m):
    rng = m.rng
    n = int(rng.integers(1, 7))
    p = int(rng.integers(1, 7))
    md = n + int(rng.integers(0, 4))
    A = gen.mat(rng, md, n, False, gen.logu(rng, 1, 5))
    kind = int(rng.integers(0, 4))
    L = np.eye(n) if kind == 0 else (np.eye(n) - np.eye(n, k=1) if kind == 1 else gen.mat(rng, p, n))
    p = L.shape[0]
    b = S.vec(rng, md, False)
    deg = int(rng.integers(0, 8))
    if deg == 0:
        b = np.zeros(md)
    elif deg == 1:
        b = A @ np.round(rng.standard_normal(n))
    elif deg == 2:
        b = b - A @ np.linalg.lstsq(A, b, rcond=None)[0]
    kappa = gen.logu(rng, .3, 5)
    eps = gen.logu(rng, .02, 2) if rng.random() < .95 else 0.
    x0 = None if rng.random() < .5 else S.start(rng, n, False)
    if deg == 3 and x0 is not None:
        x0 = np.linalg.lstsq(A, b, rcond=None)[0]
    ad = bool(rng.random() < .5)
    kw = dict(adaptive=ad, iter_lim_outer=600, iter_lim_inner=int(rng.choice([100, 50])))
    if rng.random() < .2:
        kw.pop("iter_lim_inner")
    Ao, Lo = gen.linop(rng, A), gen.linop(rng, L)
    x = S.O().sr3.SR3(Ao, Lo, b, kappa, eps, x0=x0, **kw)
    m.describe(n=n, p=p, m=md, reg=kind, degenerate=deg, kappa=kappa, eps=eps, x0=x0 is not None, **kw)

    def F(v):
        w = C.soft(L @ v, eps / kappa)
        return .5 * float(np.sum((A @ v - b) ** 2)) + eps * float(np.abs(w).sum()) + kappa / 2 * float(np.sum((L @ v - w) ** 2))

    def G(v):
        w = C.soft(L @ v, eps / kappa)
        return A.T @ (A @ v - b) + kappa * L.T @ (L @ v - w)
    if not m.ok(np.all(np.isfinite(x)) and x.shape == (n,), "finite answer of the right shape", got=x):
        return
    s = minimize(F, np.zeros(n), jac=G, method="BFGS", options=dict(gtol=1e-10, maxiter=2000))
    best = min(s.fun, F(minimize(F, x, jac=G, method="BFGS", options=dict(gtol=1e-10)).x))
    ref = F(np.zeros(n)) + (F(x0) if x0 is not None else 0)
    m.le(F(x) - best, 0, "the answer minimises the documented relaxed objective", 1e-3 * (ref - best if ref > best else 0) * 1e-1 + 1e-7 * (1 + ref), best=best, got=F(x), start=ref)
    m.event("adaptive" if ad else "fixed inner iterations")
    if np.any(x):
        m.nontrivial(x.tobytes())


GROUPS = [("bregman", bregman, 1260, 7000), ("limit", limit, 180, 800), ("pnp", pnp, 900, 5000), ("sr3", sr3, 720, 4000)]
