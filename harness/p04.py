"""P04: functional values and membership answers match their definition."""
import numpy as np

import catalog as C
import gen
from common import nontriv

PROP = "P04"
RULE = ("one case = one functional or set with drawn options and points (including points returned by its own proximal "
        "step and points near the boundary of the set); non-trivial when the value is finite and non-zero, or for sets "
        "when both answers were observed")


def is_bool(v):
    return isinstance(v, (bool, np.bool_))


def values(m):
    rng = m.rng
    tab = {k: v for k, v in {**C.CONVEX, **C.NONCONVEX, **C.FORMULA}.items()
           if k not in ("L0Ball", "L10Ball", "Log1", "RelaxedMumfordShah")}
    s = C.pick(m, tab, 0.25)
    op = s.make()
    for rep in range(3):
        x = s.draw(rng, 1.0)
        if rep == 2 and s.prox is not None:
            x = np.asarray(s.prox(x, gen.logu(rng, .1, 3))).reshape(x.shape)
        m.describe(spec=s.name, cfg=s.cfg, x=x)
        v = op(x.copy())
        m.event("values")
        if not s.value:
            # composition with an indicator: the answer must be the indicator's
            if "Orthogonal" in s.name:
                d = s.f(x)
                far = s.f(x * 1) == s.f(x * (1 + 1e-7)) == s.f(x * (1 - 1e-7))
                if far:
                    m.ok(bool(v) == (d == 0), "indicator composed with a map answers for the mapped point", got=v, x=x, cfg=s.cfg)
                    m.nontrivial(s.name, x.tobytes())
            continue
        f = s.f(x)
        sc = s.scale(x)
        # cancellation inside a sum of terms is bounded by the scale of the terms
        rough = abs(f) + (sc ** 2 if s.name.startswith(("L2", "Quadratic", "Orth", "VStack", "Sing")) and not np.isinf(f) else 0) * 1e-2
        m.ok(np.isscalar(v) or np.ndim(v) == 0, "value is a scalar", got=v, spec=s.name)
        m.ok(not np.iscomplexobj(v), "value is real", got=v, spec=s.name)
        m.close(float(v), f, "value equals the documented definition", 1e-9 * rough + 1e-9 * s.acc * sc + 1e-12 * (sc if s.cvx else 1 + sc) + (1e-8 * sc ** 2 if "Indicator" in s.name else 0),
                spec=s.name, cfg=s.cfg, x=x)
        if f and np.isfinite(f):
            m.nontrivial(s.name, x.tobytes())


def sets(m):
    rng = m.rng
    tab = {**C.SETS, "L0Ball": C.g_l0ball, "L10Ball": C.g_l10ball}
    s = C.pick(m, tab, 0.2)
    op = s.make()
    yes = no = 0
    outer = {"AffineSet": 1e-3, "NuclearBall": 1e-3, "L1Ball": 1e-3, "Hankel": 1e-3, "GenericIntersectionProx": 1e-3,
             "Simplex": 1e-5}
    marg = next((v for k, v in outer.items() if s.name.startswith(k)), 1e-7)
    for rep in range(4):
        x = s.draw(rng, 1.0)
        if rep >= 2:
            x = np.asarray(s.member(rng)).reshape(x.shape)
            if rep == 3:
                x = x + rng.standard_normal(x.shape) * 10.0 ** rng.uniform(-8, 0)
                if s.cplx:
                    x = x + 0j
        d = s.dist(x)
        m.describe(spec=s.name, cfg=s.cfg, x=x, distance=d)
        v = op(x.copy())
        m.event("membership questions")
        m.ok(is_bool(v), "membership answer is a truth value", got=v, spec=s.name)
        sc = s.scale(x)
        if "dims" in s.name and "Simplex" in s.name:
            D = x.reshape(s.cfg["dims"])
            if s.cfg["axis"] == 0:
                D = D.T
            if all(r.sum() < s.cfg["radius"] + 1e-9 for r in D) and d > 0:
                continue            # listed finding: row sums below the radius are accepted
        if d > marg * sc:
            m.ok(not v, "points clearly outside are answered no", x=x, dist=d, spec=s.name, cfg=s.cfg)
            no += 1
        elif rep == 2 and d == 0 and strictly_inside(s, x):
            m.ok(bool(v), "points inside are answered yes", x=x, spec=s.name, cfg=s.cfg)
            yes += 1
        # the projected point is a member within the documented tolerance
        if rep == 0 and not s.name.startswith(("HalfSpace", "EuclideanBall", "AffineSet", "Intersection")):
            p = op.prox(x.copy(), 1.0)
            q = p
            if s.name.startswith("GenericIntersection"):
                continue
            m.ok(bool(op(q.copy())), "the projected point is answered yes", p=p, x=x, spec=s.name, cfg=s.cfg)
        elif rep == 0:
            p = op.prox(x.copy(), 1.0)
            if np.abs(x).max() < 1e3:
                inner(m, s, op, p)
    if yes or no:
        m.nontrivial(s.name, repr(s.cfg))


def strictly_inside(s, x):
    n = s.name
    if n.startswith(("L0", "L10", "Box", "Hankel", "Simplex")):
        return True
    if n.startswith("HalfSpace"):
        w, b = s.cfg["w"], s.cfg["b"]
        return b - w @ x > 1e-9 * (1 + np.abs(w * x).sum())
    if n.startswith("EuclideanBall"):
        return np.linalg.norm(x - s.cfg["center"]) < s.cfg["radius"] * (1 - 1e-9)
    if n.startswith(("L1Ball", "NuclearBall", "Intersection")):
        return True
    return n.startswith(("AffineSet", "Generic"))


def inner(m, s, op, p):
    """Sets answered by exact comparison: the projected point pulled inwards by rounding-size is a member."""
    n = s.name
    if n.startswith("HalfSpace"):
        w = s.cfg["w"]
        q = p - 1e-9 * (1 + np.abs(p).max()) * w / np.linalg.norm(w)
    elif n.startswith("EuclideanBall"):
        if s.cfg["radius"] == 0:
            return
        c = s.cfg["center"]
        q = c + (p - c) * (1 - 1e-9)
        if np.max(np.abs(p)) > 1e4 * s.cfg["radius"]:
            return
    elif n.startswith("Intersection"):
        k = s.cfg["k"]
        P = p.reshape(k, -1)
        q = (P.mean(0) + (P - P.mean(0)) * (1 - 1e-5)).ravel()
    else:
        q = s.prox(p, 1.0)
    m.ok(bool(op(q)), "the projected point is answered yes", p=q, spec=n, cfg=s.cfg)


def tolerances(m):
    """Membership questions with a tolerance chosen by the caller."""
    import pyproximal as pp
    rng = m.rng
    k = m.index % 5
    n = int(rng.integers(1, 7))
    tol = 10.0 ** rng.uniform(-8, -1)
    over = tol * float(rng.choice([0.5, 2.0, -0.5, 50.0, -50.0]))
    r = gen.logu(rng, .3, 4)
    want = over < tol
    if r + over <= 1e-3:
        over, want = 0.5 * tol, True
    if k == 0:
        x = rng.standard_normal(n)
        x *= (r + over) / np.abs(x).sum()
        v = pp.L1Ball(n, r)(x, tol) if rng.random() < .5 else pp.L1Ball(n, r)(x, tol=tol)
    elif k == 1:
        dim = (2, 3)
        X = rng.standard_normal(dim)
        X *= (r + over) / np.linalg.svd(X, compute_uv=False).sum()
        x = X.ravel()
        v = pp.NuclearBall(dim, r)(x, tol)
    elif k == 2:
        x = rng.random(n) + .01
        x *= (r + over) / x.sum()
        want = abs(over) < tol
        v = pp.Simplex(n, r)(x, tol)
    elif k == 3:
        x = np.zeros((3, n))
        a, b = rng.permutation(3)[:2]
        x[a, 0] = r + over
        x[b, 0] = 0
        c = 3 - a - b
        x[c, 0] = (r + over) / 2
        x += rng.standard_normal(n)[None]
        x = x.ravel()
        v = pp.Intersection(3, n, r)(x, tol)
    else:
        # default tolerances: L1Ball 1e-4, NuclearBall 1e-5, Simplex 1e-8
        j = int(rng.integers(0, 3))
        dt = [1e-4, 1e-5, 1e-8][j]
        over = dt * float(rng.choice([0.5, 2.0]))
        want = over < dt
        x = np.ones(n) * (r + over) / n
        v = [lambda: pp.L1Ball(n, r)(x), lambda: pp.NuclearBall((n, 1), r)(np.eye(1, n).ravel() * (r + over)),
             lambda: pp.Simplex(n, r)(x)][j]()
    m.describe(kind=k, x=x, radius=r, tol=tol, over=over)
    m.ok(bool(v) == bool(want), "membership honours the tolerance", got=v, want=want, kind=k, x=x, radius=r, tol=tol, over=over)
    m.nontrivial(k, x.tobytes())


def special(m):
    """Definitions that have their own reference: TV, relaxed Mumford-Shah, L10, sums, scheduled weights, nested parts."""
    import pyproximal as pp
    rng = m.rng
    k = m.index % 7
    if k == 0:
        nd = int(rng.integers(1, 5))
        dims = tuple(int(rng.integers(1, 5)) for _ in range(nd))
        X = rng.standard_normal(dims) * gen.logu(rng, .1, 100)
        sg = gen.logu(rng, .1, 4)
        v = pp.TV(dims if rng.random() < .8 or nd > 1 else None, sigma=sg)(X.ravel())
        g2 = np.zeros(dims)
        for a in range(nd):
            d = np.diff(X, axis=a)
            pad = [(0, 0)] * nd
            pad[a] = (0, 1)
            g2 += np.pad(d, pad) ** 2
        m.close(float(v), sg * float(np.sqrt(g2).sum()), "TV equals the sum of discrete gradient magnitudes", 1e-10 * (1 + np.abs(X).max() * X.size), dims=dims, X=X)
        m.nontrivial("TV", X.tobytes())
    elif k == 1:
        s, kap = gen.logu(rng, .1, 4), gen.logu(rng, .1, 4)
        x = gen.vec(rng, int(rng.integers(1, 6)), 1.0, np.sqrt(kap / s))
        v = pp.RelaxedMumfordShah(s, kap)(x)
        m.close(float(v), min(s * float(np.sum(np.abs(x) ** 2)), kap), "RelaxedMumfordShah value", 1e-10 * (1 + kap), x=x, sigma=s, kappa=kap)
        m.nontrivial("rms", x.tobytes())
    elif k == 2:
        s = C.g_log1(rng)
        x = s.draw(rng, 1.0)
        v = pp.Log1(1.0, s.cfg["delta"])(x)
        m.close(float(v), s.f(x), "Log1 value with unit weight", 1e-10 * (1 + abs(s.f(x))) + 1e-9, x=x, cfg=s.cfg)
        m.nontrivial("log1", x.tobytes())
    elif k == 3:
        # sum of functionals and indicators
        n = int(rng.integers(1, 6))
        parts = [C.g_simple(rng, False, n) for _ in range(int(rng.integers(1, 5)))]
        x = parts[-1].draw(rng, 1.0)
        op = pp.Sum([p.make() for p in parts])
        v = op(x)
        ind = [p for p in parts if p.ind]
        vals = [p.f(x) for p in parts if not p.ind]
        near = any(0 < p.dist(x) < 1e-6 for p in ind)
        m.describe(parts=[p.name for p in parts], x=x)
        if not near:
            if any(p.dist(x) > 0 for p in ind):
                m.ok(v is False or (is_bool(v) and not v), "a sum is false when an indicator is", got=v, x=x)
            elif vals:
                m.close(float(v), sum(vals), "a sum adds the values of its terms", 1e-9 * (1 + sum(map(abs, vals)) + np.abs(x).max() ** 2 * 1e-3), x=x, parts=[p.name for p in parts])
            else:
                m.ok(is_bool(v) and bool(v), "a sum of satisfied indicators is true", got=v, x=x)
        m.nontrivial("sum", x.tobytes())
    elif k == 4:
        # scheduled weights are read at the position reached
        sched = {i: float(v) for i, v in enumerate(np.exp(rng.uniform(-1, 1, 50)))}
        n = int(rng.integers(1, 5))
        x = rng.standard_normal(2 * n)
        j = int(rng.integers(0, 6))
        for op, f in ((pp.L1(sigma=lambda c: sched[c]), lambda w: w * np.abs(x).sum()),
                      (pp.RelaxedMumfordShah(lambda c: sched[c], 1e9), lambda w: w * float(x @ x))):
            for _ in range(j):
                op.prox(x.copy(), 1.0)
            m.close(float(op(x)), f(sched[j]), "scheduled weight: value uses the position reached", 1e-10 * (1 + x @ x), x=x, steps=j)
        m.nontrivial("sched", x.tobytes())
    elif k == 5:
        # elementwise penalties agree with their summed value
        n = int(rng.integers(1, 6))
        for g in (C.g_etp, C.g_geman, C.g_log, C.g_scad, C.g_qecard):
            s = g(rng)
            x = gen.vec(rng, n, 1.0, 1.0)
            op = s.make()
            e = op.elementwise(x.copy())
            m.close(e, s.phi(np.abs(x)), s.name + ": elementwise penalty", 1e-9 * (1 + np.abs(s.phi(np.abs(x))).max()), x=x, cfg=s.cfg)
            m.nontrivial(s.name, x.tobytes())
    else:
        nd = int(rng.integers(1, 4))
        kk = int(rng.integers(1, 5))
        X = rng.standard_normal((nd, kk)) * (rng.random((nd, kk)) < .5)
        if rng.random() < .4:
            X = X * 1e-9
        r = int(rng.integers(0, kk + 1))
        v = pp.proximal.L10Ball(nd, r)(X.ravel())
        m.ok(bool(v) == (np.count_nonzero(np.abs(X).sum(0)) <= r), "L10Ball counts non-zero columns", X=X, radius=r, got=v)
        v = pp.L0Ball(r)(X.ravel())
        m.ok(bool(v) == (np.count_nonzero(X) <= r), "L0Ball counts non-zero entries", X=X, radius=r, got=v)
        w = rng.standard_normal(3)
        b = float(rng.standard_normal())
        m.ok(pp.L0(2.0)(X.ravel()) == np.count_nonzero(X), "L0 counts non-zero entries", X=X)
        m.nontrivial("count", X.tobytes())


def findings(m):
    """Listed findings (each pinned by an existing test, so recorded and not repaired)."""
    import pyproximal as pp
    x = np.array([1.0, 2.0, 0.5, -1.0])
    q = pp.QuadraticEnvelopeRankL2((2, 2), 1, np.zeros((2, 2)))
    X = np.array([[3.0, 0], [0, 0]])
    m.known("qerankl2-unsquared", abs(q(X.ravel()) - 4.5) < 1e-9, "QuadraticEnvelopeRankL2 value equals the documented definition", got=q(X.ravel()))
    m.known("log1-weight", abs(pp.Log1(2.0, 1.0)(x) - 2 * np.log(np.abs(x) + 1).sum()) < 1e-9, "Log1 value equals the documented definition", got=pp.Log1(2.0, 1.0)(x))
    s = pp.Simplex(4, 2.0, dims=(2, 2))
    m.known("simplex-dims-onesided", not s(np.full(4, 0.25)), "Simplex with dims: points clearly outside are answered no")
    v = pp.VStack([pp.Box(-5, 5), pp.L1()], nn=[2, 2])(x)
    m.known("stack-indicator-value", abs(v - 1.5) < 1e-9, "VStack value with a satisfied indicator adds nothing", got=v)
    # what holds besides: value of the rank envelope at points of rank <= r0, and of the misfit up to its root
    rng = m.rng
    dim = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    r0 = int(rng.integers(1, min(dim) + 1))
    M = rng.standard_normal(dim)
    x = rng.standard_normal(dim[0] * dim[1])
    v = pp.QuadraticEnvelopeRankL2(dim, r0, M)(x)
    e = C.ksupport_env(np.linalg.svd(x.reshape(dim), compute_uv=False), r0)
    d = np.linalg.norm(x.reshape(dim) - M)
    m.ok(min(abs(v - e - d / 2), abs(v - e - d * d / 2)) < 1e-8 * (1 + d * d), "QuadraticEnvelopeRankL2: envelope part of the value", got=v, env=e, misfit=d)
    m.nontrivial(x.tobytes())


GROUPS = [("values", values, 6000, 30000), ("sets", sets, 4000, 16000), ("tolerances", tolerances, 2000, 8000),
          ("special", special, 2800, 12000), ("findings", findings, 240, 500)]
