"""P18: primal-dual solvers follow their recursion; the adaptive version conserves its step sizes."""
import numpy as np

import catalog as C
import solvers as S
from p16 import follow, steps

PROP = "P18"
RULE = ("one case = one primal-dual run (fixed, per-iteration or adaptive steps) with random operator, linear term, order and start, "
        "compared iterate by iterate with a second implementation, or an adaptive run whose step history is audited; non-trivial when "
        "at least two distinct iterates were seen")


def family(m):
    run, seen, res, want = follow(m, S.PD)
    if m.fails:
        return
    if run.name == "PrimalDual" and isinstance(res, tuple) and want and len(seen) == len(want):
        pert, _ = S.ref_trace(run, len(want), pert=1e-11)
        sc = 1 + max(float(np.abs(v).max()) for v in want[-1])
        sens = float(np.abs(pert[-1][1] - want[-1][1]).max()) if len(pert) == len(want) else np.inf
        if 1e4 * sens < 1e-3 * sc:
            m.close(res[1], want[-1][1], "returned dual variable", sc * run.tie * (1 + len(want) / 10) + 1e4 * sens, opts=run.opts)
    if run.name == "AdaptivePrimalDual":
        ledger(m, run, seen, res)


def ledger(m, run, seen, res):
    """Audit of the recorded step sizes against the documented rules."""
    d = run.data
    taus, mus, als = res[1]
    n = len(seen)
    m.ok(len(taus) == len(mus) == len(als) == n + 1, "one history entry per iteration plus the start", lens=[len(taus), len(mus), len(als)], iters=n,
         opts=run.opts)
    m.ok(taus[0] == d["tau"] and mus[0] == d["mu"] and als[0] == d["alpha"], "history starts with the given values", opts=run.opts)
    pr = np.asarray(taus) * np.asarray(mus)
    m.ok(np.all(np.abs(pr / pr[0] - 1) < 1e-9), "the product of the two steps is conserved", products=pr, opts=run.opts)
    m.ok(np.all(np.diff(als) <= 0) and np.all(np.asarray(als) > 0), "the adaptation level never increases", alphas=als, opts=run.opts)
    m.ok(np.all(np.asarray(taus) > 0) and np.all(np.isfinite(taus)), "steps stay positive and finite", taus=taus)
    for k in range(n):
        r = taus[k + 1] / taus[k]
        a = als[k]
        if a < 1e-12:
            break                       # a change of the step is below rounding
        if r == 1:
            m.ok(als[k + 1] == a and mus[k + 1] == mus[k], "nothing changes without a step change", k=k, opts=run.opts)
            m.event("adaptive: unchanged")
        else:
            up = r > 1
            f = 1 / (1 - a) if up else 1 - a
            m.ok(abs(r / f - 1) < 1e-9, "a changed step changes by the adaptation level", ratio=r, want=f, k=k, opts=run.opts)
            m.ok(abs(als[k + 1] / (a * d["eta"]) - 1) < 1e-9, "the adaptation level shrinks by eta when a step changes", k=k, opts=run.opts)
            m.event("adaptive: primal step " + ("up" if up else "down"))
    # reconstruct the decisions from the reference run
    ref, _ = S.ref_trace(run, max(n, 1))
    hist = d["hist"]["steps"]
    K = min(len(hist[0]), len(ref) + 1, n + 1)
    for got, want, nm in ((taus, hist[0], "tau"), (mus, hist[1], "mu"), (als, hist[2], "alpha")):
        with np.errstate(all="ignore"):
            rel = np.abs(np.asarray(got[:K]) / np.asarray(want[:K]) - 1)
        m.ok(np.all(rel < 1e-6), "step history equals the documented rule: " + nm, got=np.asarray(got[:K]), want=np.asarray(want[:K]), opts=run.opts)


def adaptive(m):
    run = S.b_adaptive(m.rng, bool(m.rng.random() < .2))
    niter = steps(m.rng)
    seen, res, want, und = S.lockstep(m, run, niter)
    if not m.fails:
        ledger(m, run, seen, res)
        if len(seen) > 1:
            m.nontrivial(run.name, seen[-1][0].tobytes())


def unit(m):
    """With extrapolation, z and both orders: identities that tie runs together."""
    rng = m.rng
    f = S.anyf(rng, int(rng.integers(1, 5)), False, True)
    n, p = f.n, int(rng.integers(1, 5))
    g = S.anyf(rng, p, False, True)
    A = rng.standard_normal((p, n))
    tau = .5 / np.linalg.norm(A, 2)
    mu = tau * 1.5
    x0, y0, z = rng.standard_normal(n), rng.standard_normal(p), rng.standard_normal(n)
    import gen
    Op = gen.linop(rng, A)
    PDH = S.O().primaldual.PrimalDual
    niter = steps(rng)
    kw = dict(niter=niter, returny=True, gfirst=bool(rng.random() < .5), theta=float(rng.choice([0., .3, 1.])))
    # a linear term in the data equals the same term added to the functional
    a, ya = PDH(f.make(), g.make(), Op, x0, tau, mu, y0=y0, z=z, **kw)
    b, yb = PDH(f.make() + z, g.make(), Op, x0, tau, mu, y0=y0, **kw)
    sc = 1 + np.abs(a).max()
    m.close(a, b, "linear term given as z or added to f", 1e-8 * sc * niter, opts=str(kw))
    m.close(ya, yb, "dual variable with the linear term given as z or added to f", 1e-8 * sc * niter * (1 + np.abs(ya).max()), opts=str(kw))
    # constant step vectors equal scalar steps; explicit zero dual start equals none
    c, _ = PDH(f.make(), g.make(), Op, x0, np.full(niter, tau), np.full(niter, mu), y0=y0, z=z, **kw)
    m.close(a, c, "constant step vectors equal scalar steps", 0 if niter else 0, opts=str(kw))
    d, _ = PDH(f.make(), g.make(), Op, x0, tau, mu, y0=np.zeros(p), z=z, **kw)
    e, _ = PDH(f.make(), g.make(), Op, x0, tau, mu, z=z, **kw)
    m.close(d, e, "zero dual start equals none", 0, opts=str(kw))
    # integer steps are accepted like floats
    t = PDH(f.make(), g.make(), Op, x0, 1, 1, niter=2)
    t2 = PDH(f.make(), g.make(), Op, x0, 1., 1., niter=2)
    m.close(t, t2, "integer steps equal float steps", 0)
    # the type of the start does not touch the steps
    xi = rng.integers(-4, 5, n)
    for nm, run in (("PrimalDual", lambda v: PDH(f.make(), g.make(), Op, v, tau, mu, niter=niter, theta=kw["theta"], gfirst=kw["gfirst"])),
                    ("AdaptivePrimalDual", lambda v: S.O().primaldual.AdaptivePrimalDual(f.make(), g.make(), Op, v, tau, mu, niter=niter, tol=-1)[0])):
        u = run(xi.astype(float))
        m.close(run(xi), u, "an integer start equals the same start in floating point", 1e-9 * (1 + np.abs(u).max()) * niter, solver=nm, opts=str(kw), start=xi)
        m.event("starts compared")
    # steps reach the functionals as positive real numbers, whatever the variables are and however a scalar step is given
    got = []

    class Spy(C.P().ProxOperator):
        def __init__(self, s):
            super().__init__(None, False)
            self.s = s

        def __call__(self, v):
            return 0.

        def prox(self, v, t):
            got.append(t)
            return v / (1 + np.real(t) * self.s)

        def proxdual(self, v, t):
            got.append(t)
            return v / (1 + np.real(t) * self.s)

    xc = x0 + 1j * rng.standard_normal(n)
    st = [float, np.float32, np.float64, np.array][int(rng.integers(0, 4))]
    u = PDH(Spy(.5), Spy(2.), gen.linop(rng, A.astype(complex)), xc, st(tau), st(mu), niter=niter, gfirst=kw["gfirst"])
    w = PDH(Spy(.5), Spy(2.), gen.linop(rng, A.astype(complex)), xc, np.full(niter, float(st(tau))), np.full(niter, float(st(mu))), niter=niter, gfirst=kw["gfirst"])
    m.close(u, w, "a scalar step of any kind equals a constant step vector", 1e-6 * (1 + np.abs(w).max()), kind=st.__name__)
    m.ok(got and all(not np.iscomplexobj(t) and np.ndim(t) == 0 and t > 0 for t in got), "steps reach the functionals as positive real numbers", got=[str(type(t)) for t in got[:2]])
    m.nontrivial(a.tobytes(), str(kw))
    m.describe(f=f.name, g=g.name, **kw)


GROUPS = [("family", family, 3500, 12000), ("adaptive", adaptive, 2500, 10000), ("unit", unit, 1000, 3000)]
