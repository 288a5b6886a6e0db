"""P02: proximal step of a non-convex penalty is a global minimiser."""
import itertools

import numpy as np

import catalog as C
import gen
from common import competitors, nontriv

PROP = "P02"
RULE = ("one case = one penalty with drawn parameters, inputs placed at and around its branch points, a step from "
        "1e-4 to 1e4; non-trivial when the returned point differs from the input and from zero")


def finite(m, s, p, x, t):
    if not isinstance(p, np.ndarray) or p.shape != x.shape:
        return m.ok(False, "returns an array shaped like its input", got=type(p), shape=getattr(p, "shape", None))
    return m.ok(np.all(np.isfinite(p)), "finite result", p=p, x=x, tau=t, spec=s.name, cfg=s.cfg)


def penalties(m):
    rng = m.rng
    s = C.pick(m, C.NONCONVEX, 0.25)
    op = s.make()
    for rep in range(3):
        t = gen.tau(rng)
        if s.name.startswith("Sing") or s.name.startswith("Nuc"):
            t = gen.logu(rng, 1e-3, 1e3)
        x = s.draw(rng, t)
        m.describe(spec=s.name, cfg=s.cfg, x=x, tau=t)
        p = op.prox(x.copy(), t)
        m.event("prox calls")
        if not finite(m, s, p, x, t):
            return
        nontriv(m, s, x, p, t)
        sc = s.scale(x, p)
        o = s.obj(p, x, t)
        slack = 1e-10 * abs(o) + ((1e-10 + s.acc) * sc) ** 2 / t + (1e-13 + s.acc * 1e-3) * (1 + sc)
        if s.prox is not None:
            m.close(p, s.prox(x, t), "equals the documented closed form", C.TOL * sc + s.acc * sc, x=x, tau=t, spec=s.name, cfg=s.cfg)
        elif s.name == "QuadraticEnvelopeCardIndicator":
            best = s.obj(C.qeci_prox(x, t, s.cfg["r0"]), x, t)
            m.le(o, best, "attains the global minimum", slack + 1e-9 * (best + sc ** 2 * (1 + 1e-3 / t)), x=x, tau=t, p=p, spec=s.name, cfg=s.cfg)
        else:
            m.le(o, s.best(x, t), "attains the global minimum", slack + 2e-7 * abs(o) * 1e-1, x=x, tau=t, p=p, spec=s.name, cfg=s.cfg)
        if not s.ind and s.prox is None:
            for q in competitors(rng, s, x, p, t, 12):
                m.le(o, s.obj(q, x, t), "no competitor has a lower objective",
                     slack + 1e-9 * abs(o) + (1e-9 * sc) ** 2 + (1e-10 * sc * sc if s.name[0] == "Q" else 0), q=q, p=p, x=x, tau=t, spec=s.name, cfg=s.cfg)
        elif s.ind:
            m.ok(s.dist(p) == 0, "the point satisfies the cardinality bound", p=p, x=x, spec=s.name, cfg=s.cfg)


def formulas(m):
    """Operations the documentation defines by a formula."""
    rng = m.rng
    s = C.pick(m, C.FORMULA, 0.25)
    op = s.make()
    for rep in range(3):
        t = gen.tau(rng)
        x = s.draw(rng, t)
        m.describe(spec=s.name, cfg=s.cfg, x=x, tau=t)
        p = op.prox(x.copy(), t)
        if not finite(m, s, p, x, t):
            return
        nontriv(m, s, x, p, t)
        sc = s.scale(x)
        if s.name == "L10Ball":
            k, nd, r = s.cfg["k"], s.cfg["ndim"], s.cfg["radius"]
            X, Pm = x.reshape(nd, k), p.reshape(nd, k)
            kept = [np.any(Pm[:, j] != 0) or not np.any(X[:, j]) for j in range(k)]
            m.ok(all(np.array_equal(Pm[:, j], X[:, j]) or not np.any(Pm[:, j]) for j in range(k)),
                 "columns are kept or zeroed as a whole", p=Pm, x=X, cfg=s.cfg)
            m.ok(s.dist(p) == 0, "the point satisfies the cardinality bound", p=Pm, x=X, cfg=s.cfg)
            good = False
            for nrm in (1, 2):
                v = np.linalg.norm(X, axis=0, ord=nrm)
                lost = sum(v[j] for j in range(k) if not np.any(Pm[:, j]))
                good |= lost <= np.sort(v)[:max(k - r, 0)].sum() * (1 + 1e-10) + 1e-300
            m.ok(good, "the dropped columns are the smallest ones", p=Pm, x=X, cfg=s.cfg)
        elif s.name == "RelaxedMumfordShah":
            o = s.obj(p, x, t)
            m.le(o, s.best(x, t), "attains the global minimum", 1e-9 * abs(o) + 1e-20, x=x, tau=t, p=p, cfg=s.cfg)
            a = np.abs(x)
            lim = np.sqrt(s.cfg["kappa"] / s.cfg["sigma"] * (1 + 2 * t * s.cfg["sigma"]))
            clear = np.abs(a - lim) > 1e-9 * lim
            ref = np.where(a <= lim, x / (1 + 2 * t * s.cfg["sigma"]), x)
            m.close(p[clear], ref[clear], "equals the documented formula", 1e-10 * sc, x=x, tau=t, cfg=s.cfg)
        else:
            # the branch is decided by a comparison: ties within rounding may go either way
            a = np.abs(x)
            lim = t * s.cfg["sigma"] if s.name == "L0" else max(np.sqrt(2 * t * s.cfg["sigma"]) - s.cfg["delta"], 0)
            clear = np.abs(a - lim) > 1e-9 * max(lim, 1e-12)
            ref = s.prox(x, t)
            tol = 1e-9 * sc if s.name == "L0" else 1e-7 * sc
            m.close(p[clear], ref[clear], "equals the documented formula", tol, x=x, tau=t, spec=s.name, cfg=s.cfg)
            if s.name == "L0":
                m.ok(np.all((p == x) | (p == 0)), "kept entries are untouched", p=p, x=x)


def arrays(m):
    """Coefficients given per column (or per entry), constant or produced by a schedule."""
    rng = m.rng
    P = C.P()
    k = int(rng.integers(1, 6))
    rows = int(rng.integers(1, 5))
    shape = (k,) if rng.random() < .3 else (rows, k)
    cplx = bool(rng.random() < .2)
    which = ["RelaxedMumfordShah", "L0", "RelaxedMumfordShah"][m.index % 3]

    def coeff():
        """(what the operator gets, what it means at the j-th step)"""
        v = np.exp(rng.uniform(-2.5, 2.5, k))
        c = float(v[0])
        mode = int(rng.integers(0, 4))
        if mode == 0:
            return c, lambda j: c
        if mode == 1:
            return v, lambda j: v
        if mode == 2:
            fun = lambda j: c / (1 + .3 * j)
        else:
            fun = lambda j: v * (1 + .5 * np.sin(j + np.arange(k)))
        return fun, fun
    (s, sj), (kap, kj) = coeff(), coeff()
    op = P.L0(s) if which == "L0" else P.RelaxedMumfordShah(s, kap)
    m.event(f"{which} sigma {'schedule' if callable(s) else np.ndim(s)} kappa {'schedule' if callable(kap) else np.ndim(kap)} input {len(shape)}-D")
    for j in range(1, 4):
        t = gen.tau(rng)
        ss, kk = np.broadcast_to(sj(j), shape), np.broadcast_to(kj(j), shape)
        lim = t * ss if which == "L0" else np.sqrt(kk / ss * (1 + 2 * t * ss))
        x = gen.vec(rng, int(np.prod(shape)), 1., 1., cplx).reshape(shape)
        if rng.random() < .6:
            x = lim * rng.choice([.5, .9, .99, 1.01, 1.2, 3.], shape) * rng.choice([-1., 1.], shape) * (np.exp(1j * rng.uniform(0, 6, shape)) if cplx else 1.)
        m.describe(which=which, x=x, tau=t, sigma=ss, kappa=kk, step=j)
        p = np.asarray(op.prox(x.copy(), t))
        m.ok(p.shape == x.shape, "the step has the shape of its input", got=p.shape)
        a = np.abs(x)
        ref = np.where(a > lim, x, 0 if which == "L0" else x / (1 + 2 * t * ss))
        clear = np.abs(a - lim) > 1e-9 * lim
        m.close(p[clear], ref[clear], "each entry is treated with its own coefficients", 1e-10 * (1 + np.abs(x).max()), which=which, x=x, tau=t, sigma=ss, kappa=kk, step=j)
        if np.any(p != x):
            m.nontrivial(which, x.tobytes(), t)


def brute_card(m):
    """Small l0 problems by exhaustive support enumeration (also ties)."""
    rng = m.rng
    n = int(rng.integers(1, 7))
    r0 = int(rng.integers(1, n + 1))
    x = gen.vec(rng, n, 1.0, 1.0, rng.random() < .2)
    t = gen.logu(rng, 1.0, 50)          # regime where the envelope has the minimisers of the cardinality problem
    import pyproximal as pp
    m.describe(x=x, tau=t, r0=r0)
    best = min(float(np.sum(np.abs(np.delete(x, list(S))) ** 2)) for S in itertools.combinations(range(n), r0)) / (2 * t)
    for nm, op in (("L0Ball", pp.L0Ball(r0)), ("QECardInd", pp.QuadraticEnvelopeCardIndicator(r0))):
        p = op.prox(x.copy(), t)
        o = float(np.sum(np.abs(p - x) ** 2)) / (2 * t)
        m.ok(np.count_nonzero(p) <= r0, nm + ": cardinality bound met", p=p, x=x, r0=r0)
        m.le(o, best, nm + ": no support of that size is better", 1e-10 * best + 1e-300, p=p, x=x, r0=r0, tau=t)
    mu = gen.logu(rng, .05, 5)
    q = pp.QuadraticEnvelopeCard(mu)
    p = q.prox(x.copy(), t)
    best = min(float(np.sum(np.abs(np.delete(x, list(S))) ** 2)) / (2 * t) + mu * k
               for k in range(n + 1) for S in itertools.combinations(range(n), k))
    o = mu * np.count_nonzero(p) + float(np.sum(np.abs(p - x) ** 2)) / (2 * t)
    m.le(o, best, "QuadraticEnvelopeCard: no support is better for the penalised problem",
         1e-9 * best + 1e-12, p=p, x=x, mu=mu, tau=t)
    m.nontrivial(x.tobytes(), r0, mu)


GROUPS = [("penalties", penalties, 7200, 40000), ("formulas", formulas, 6400, 30000),
          ("supports", brute_card, 2400, 12000), ("arrays", arrays, 1600, 10000)]
