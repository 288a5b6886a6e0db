"""P03: projections return the nearest point of their set."""
import itertools

import numpy as np

import catalog as C
import gen
from common import check_prox, nontriv, tol_for

PROP = "P03"
RULE = ("one case = one set with drawn shape parameters and inputs outside, on the boundary of and inside it; "
        "non-trivial when the projection moved the point")


def rank_tied(x, p):
    return False


def sets(m):
    """Indicator operators: nearest point, whatever the step."""
    rng = m.rng
    s = C.pick(m, C.SETS, 0.15)
    op = s.make()
    for rep in range(2):
        t, t2 = gen.tau(rng), gen.tau(rng)
        x = s.draw(rng, 1.0)
        m.describe(spec=s.name, cfg=s.cfg, x=x, tau=t)
        p = op.prox(gen.layout(rng, x), t)
        m.event("projections")
        if not check_prox(m, s, x, t, p, "projection"):
            return
        tol = tol_for(s, x, p) + s.ball_tol
        m.close(op.prox(x.copy(), t2), p, "the step size does not matter", 1e-12 * s.scale(x, p), x=x, tau=(t, t2), spec=s.name, cfg=s.cfg)
        m.close(op.prox(p.copy(), t), p, "idempotent", 2 * tol, x=x, p=p, spec=s.name, cfg=s.cfg)
        y = np.asarray(s.member(rng)).reshape(x.shape)
        m.close(op.prox(y.copy(), t), y, "members stay where they are", 2 * tol_for(s, y) + s.ball_tol, y=y, spec=s.name, cfg=s.cfg)
        nontriv(m, s, x, p, 0)


def hyperplane_box(x, a, r, lo, hi):
    """Exact projection on {a.x = r, lo<=x<=hi} from the sorted breakpoints of the dual function."""
    lo = np.broadcast_to(np.asarray(lo, float), x.shape)
    hi = np.broadcast_to(np.asarray(hi, float), x.shape)

    def g(mu):
        return float(a @ np.clip(x - mu * a, lo, hi)) - r
    with np.errstate(all="ignore"):
        bp = np.concatenate([(x - lo) / a, (x - hi) / a])
    bp = np.unique(bp[np.isfinite(bp)])
    if bp.size == 0:
        mu = (float(a @ x) - r) / float(a @ a)
        return x - mu * a
    vals = np.array([g(b) for b in bp])
    if vals[0] < 0:      # before the first breakpoint the function is affine
        l, h = bp[0] - 1.0, bp[0]
    elif vals[-1] > 0:
        l, h = bp[-1], bp[-1] + 1.0
    else:
        i = int(np.nonzero(vals <= 0)[0][0])
        l, h = (bp[i - 1], bp[i]) if i > 0 else (bp[0], bp[0] + 1e-30)
        if i == 0:
            return np.clip(x - bp[0] * a, lo, hi)
    gl, gh = g(l), g(h)
    mu = l if gl == gh else l - gl * (h - l) / (gh - gl)
    return np.clip(x - mu * a, lo, hi)


def hyperplanes(m):
    import pyproximal as pp
    rng = m.rng
    shape = [(int(rng.integers(1, 8)),), (2, 3), (3, 2)][int(rng.integers(0, 3))]
    n = int(np.prod(shape))
    a = rng.standard_normal(n)
    a = np.sign(a) * np.maximum(np.abs(a), 0.2) * gen.logu(rng, .5, 3)
    if rng.random() < .3:
        a = np.ones(n)
    mode = int(rng.integers(0, 4))
    lo, hi = [(-np.inf, np.inf), (0.0, np.inf), (-1.0, 2.0), (None, None)][mode]
    if mode == 3:
        lo = rng.uniform(-2, 0, n)
        hi = lo + rng.uniform(0.2, 2, n)
    z = np.clip(rng.uniform(-1, 2, n), np.where(np.isfinite(lo), lo, -5) * .98 if mode != 1 else 0.01, np.where(np.isfinite(hi), hi, 5) * .98) if mode != 3 else lo + (hi - lo) * rng.uniform(.1, .9, n)
    r = float(a @ z)
    xtol = float(rng.choice([1e-5, 1e-9, 1e-13]))
    proj = pp.projection.HyperPlaneBoxProj(a.reshape(shape), r, lower=lo, upper=hi, maxiter=300, xtol=xtol)
    x = gen.vec(rng, n, 1.0, 1.0, False, extreme=False)
    m.describe(coeffs=a, scalar=r, lower=lo, upper=hi, x=x, xtol=xtol)
    p = proj(gen.layout(rng, x.reshape(shape)))
    ref = hyperplane_box(x, a, r, lo, hi)
    sc = max(1.0, np.abs(x).max(), np.abs(ref).max())
    tol = 4 * xtol * np.abs(a).max() * (1 + sc * 1e-3) + 1e-9 * sc
    m.close(p, ref.reshape(shape), "hyperplane and box: equals the exact nearest point", tol, x=x, coeffs=a, scalar=r)
    m.le(abs(float(a @ p.ravel()) - r), 0, "hyperplane and box: lies on the hyperplane", tol * np.abs(a).sum() + 1e-9 * sc * np.abs(a).sum(), p=p, x=x)
    m.ok(np.all(p.ravel() >= lo) and np.all(p.ravel() <= hi), "hyperplane and box: lies in the box", p=p, x=x)
    m.nontrivial(x.tobytes(), r)


def objects(m):
    """Projection objects called directly, with tolerances chosen by the caller."""
    import pyproximal as pp
    pj = pp.projection
    rng = m.rng
    k = m.index % 9
    n = int(rng.integers(1, 9))
    x = gen.vec(rng, n, 1.0, 1.0, False, extreme=k in (0, 4))
    xtol = float(rng.choice([1e-5, 1e-8, 1e-12]))
    sc = max(1.0, np.abs(x).max(initial=0))
    extra = {}
    if k == 0:
        lo = rng.uniform(-2, 1, n)
        hi = lo + rng.choice([0, .5, 2], n)
        ref, tol = np.minimum(np.maximum(x, lo), hi), 0
        p = pj.BoxProj(lo, hi)(gen.layout(rng, x))
        nm = "BoxProj"
    elif k == 1:
        r = gen.logu(rng, .1, 5)
        p = pj.SimplexProj(n, r, maxiter=200, xtol=xtol)(gen.layout(rng, x))
        ref, tol, nm, extra = C.simplex_exact(x, r), 4 * xtol, "SimplexProj", dict(radius=r, xtol=xtol)
    elif k == 2:
        r = gen.logu(rng, .1, 5)
        c = rng.random() < .3
        if c:
            x = x * np.exp(1j * rng.uniform(0, 7, n))
        p = pj.L1BallProj(n, r, maxiter=200, xtol=xtol)(gen.layout(rng, x))
        ref, tol, nm, extra = C.l1ball_exact(x, r), 4 * xtol, "L1BallProj", dict(radius=r, xtol=xtol)
    elif k == 3:
        shp = (int(rng.integers(1, 5)), int(rng.integers(1, 5)))
        X = gen.vec(rng, shp[0] * shp[1], 1.0, 1.0, rng.random() < .3, extreme=False).reshape(shp)
        r = gen.logu(rng, .1, 5)
        p = pj.NuclearBallProj(min(shp), r, maxiter=200, xtol=xtol)(gen.layout(rng, X))
        ref = C._svd_prox(X.ravel(), shp, lambda s: C.l1ball_exact(s, r)).reshape(shp)
        x, tol, nm, extra = X, 4 * xtol * min(shp), "NuclearBallProj", dict(radius=r, xtol=xtol)
        sc = max(1.0, np.abs(X).max())
    elif k == 4:
        c = rng.standard_normal(n)
        r = gen.logu(rng, .1, 5)
        p = pj.EuclideanBallProj(c, r)(gen.layout(rng, x))
        d = np.linalg.norm(x - c)
        ref, tol, nm, extra = (x if d <= r else c + (x - c) * r / d), 0, "EuclideanBallProj", dict(radius=r, center=c)
        sc = max(sc, np.abs(c).max())
    elif k == 5:
        shp = (int(rng.integers(1, 7)), int(rng.integers(1, 7)))
        x = rng.standard_normal(shp) * 3
        p = pj.HankelProj()(gen.layout(rng, x))
        I = np.add.outer(np.arange(shp[0]), np.arange(shp[1]))
        ref = np.zeros(shp)
        for j in range(sum(shp) - 1):
            ref[I == j] = x[I == j].mean()
        tol, nm = 0, "HankelProj"
    elif k == 6:
        w = rng.standard_normal(n)
        w[0] += np.sign(w[0]) * .2
        b = float(rng.standard_normal())
        p = pj.HalfSpaceProj(w, b)(gen.layout(rng, x))
        ref, tol, nm, extra = x - max(float(w @ x) - b, 0) / float(w @ w) * w, 0, "HalfSpaceProj", dict(w=w, b=b)
        sc = max(sc, np.abs(ref).max())
    elif k == 7:
        r = int(rng.integers(0, n + 2))
        shp = (n,) if rng.random() < .5 or n % 2 else (2, n // 2)
        x = x.reshape(shp)
        p = pj.L0BallProj(r)(gen.layout(rng, x))
        m.ok(p.shape == x.shape and np.count_nonzero(p) <= r, "L0BallProj: cardinality bound met", p=p, x=x, radius=r)
        m.ok(np.all((p == x) | (p == 0)), "L0BallProj: entries are kept or zeroed", p=p, x=x)
        best = np.sort(np.abs(x).ravel() ** 2)[:max(n - r, 0)].sum()
        m.le(np.sum((p - x) ** 2), best, "L0BallProj: no support is nearer", 1e-12 * best, p=p, x=x, radius=r)
        m.nontrivial(x.tobytes(), r)
        return
    else:
        mm = int(rng.integers(1, n + 1))
        A = gen.mat(rng, mm, n, cond=3.0)
        if mm == n:
            mm = max(1, n - 1)
            A = A[:mm]
        b = A @ rng.standard_normal(n)
        p = pj.AffineSetProj(gen.linop(rng, A), b, 20 * n)(gen.layout(rng, x))
        ref = x - A.T @ np.linalg.solve(A @ A.T, A @ x - b)
        tol, nm, extra = 3e-4 * max(1, np.abs(A @ x - b).max()), "AffineSetProj", dict(A=A, b=b)
    m.describe(kind=nm, x=x, **extra)
    m.close(p, ref, nm + ": equals the exact nearest point", tol + 1e-9 * sc, x=x, **extra)
    m.nontrivial(nm, x.tobytes())


def qp_members(A, b, rng, z, k=6):
    """Feasible points of {A y <= b} around the interior point z (ray shooting)."""
    out = [z]
    for _ in range(k):
        d = rng.standard_normal(z.size)
        with np.errstate(all="ignore"):
            s = (b - A @ z) / (A @ d)
        s = s[np.isfinite(s) & (s > 0)]
        t = min(s.min() if s.size else 1.0, 10.0)
        out.append(z + d * t * rng.choice([1.0, 0.5]) * (1 - 1e-9))
    return out


def intersections(m):
    """Pairwise-difference sets and generic intersections: nearest common point."""
    import pyproximal as pp
    rng = m.rng
    if m.index % 2:
        s = C.g_intersection(rng)
    else:
        s = C.g_genint(rng)
    x = s.draw(rng, 1.0)
    m.describe(spec=s.name, cfg=s.cfg, x=x)
    p = s.make().prox(x.copy(), 1.0)
    if check_prox(m, s, x, 1.0, p, "intersection"):
        # the projection class itself gives the same point
        if s.name == "Intersection":
            c = s.cfg
            q = pp.projection.IntersectionProj(c["k"], c["n"], c["sigma"], niter=3000, tol=1e-12)(gen.layout(rng, x))
            m.close(q, p, "projection object and indicator agree", 1e-12 * s.scale(x), x=x, cfg=c)
    nontriv(m, s, x, p, 0)


def l10_known(m):
    """Listed finding: columns are selected by their l1 norm, so the result is not always the nearest point."""
    import pyproximal as pp
    X = np.array([[3.0, 2.0], [0.0, 2.0]])          # l1 norms 3, 4; l2 norms 3, 2.83
    p = pp.projection.L10BallProj(1)(X.copy())
    m.known("l10-nearest", np.sum((p - X) ** 2) <= 8 + 1e-9, "L10BallProj: no column support is nearer", p=p, x=X)
    rng = m.rng
    nd, k = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    r = int(rng.integers(0, k + 2))
    X = rng.standard_normal((nd, k))
    p = pp.projection.L10BallProj(r)(X.copy())
    nz = [j for j in range(k) if np.any(p[:, j])]
    m.ok(len(nz) <= r or r >= k, "L10BallProj: bound on the number of columns met", p=p, x=X, radius=r)
    m.ok(all(np.array_equal(p[:, j], X[:, j]) for j in nz), "L10BallProj: columns are kept or zeroed", p=p, x=X)
    m.ok(len(nz) == min(r, k), "L10BallProj: no column is dropped needlessly", p=p, x=X, radius=r)
    m.close(pp.projection.L10BallProj(r)(p.copy()), p, "L10BallProj: idempotent", 0, x=X, radius=r)
    if nd == 1:
        best = np.sort(np.abs(X[0]))[:max(k - r, 0)]
        m.le(np.sum((X - p) ** 2), np.sum(best ** 2), "L10BallProj: nearest when columns have one entry", 1e-12, p=p, x=X, radius=r)
    m.nontrivial(X.tobytes())


NEAR = {k: C.SETS[k] for k in ("AffineSet", "HalfSpace", "Box", "EuclideanBall", "Hankel")}


def near(m):
    """Points that miss the set by very little are moved by exactly that little."""
    rng = m.rng
    s = C.pick(m, NEAR, 0.15)
    x0 = s.draw(rng, 1., kind="normal")
    z = np.asarray(s.prox(x0, 1.))
    e = gen.logu(rng, 1e-7, 1e-1)
    d = rng.standard_normal(z.shape) + (1j * rng.standard_normal(z.shape) if np.iscomplexobj(z) else 0)
    if rng.random() < .5:
        d = x0 - z                                  # straight out of the set
    sc = max(1., float(np.abs(z).max()))
    x = z + e * sc * d / max(1e-300, float(np.linalg.norm(d))) if np.any(d) else z.copy()
    q = np.asarray(s.prox(x, 1.))
    p = np.asarray(s.make().prox(x.copy(), gen.tau(rng)))
    m.describe(spec=s.name, cfg=s.cfg, x=x, miss=e)
    step = float(np.linalg.norm(q - x))
    tol = 1e-11 * max(sc, float(np.abs(x).max())) * x.size + (2e-3 if s.name.startswith("AffineSet") else 1e-8) * step
    m.close(p - x, q - x, "a point that barely misses the set is moved onto it", tol, spec=s.name, cfg=s.cfg, x=x, miss=e)
    if step > 1e-9:
        m.nontrivial(s.name, x.tobytes())


GROUPS = [("near", near, 1500, 8000), ("sets", sets, 6000, 20000), ("hyperplane-box", hyperplanes, 3000, 12000), ("objects", objects, 6500, 25000),
          ("intersections", intersections, 1000, 4000), ("column-balls", l10_known, 500, 2000)]
