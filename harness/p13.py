"""P13: proximal steps of sums and projections on intersections, any engine, order, weights and number of terms."""
import itertools

import numpy as np

import catalog as C
import gen

PROP = "P13"
RULE = ("one case = one sum of functionals or one intersection of sets with drawn terms, order, weights and engine, its step compared with an independently "
        "computed minimiser; non-trivial when at least two terms are active at the solution")


class Term:
    def __init__(self, name, op, prox, f, ind=False, dist=None, proj=None, cfg=None, arrays=None):
        self.name, self.op, self.prox, self.f, self.ind, self.dist, self.proj = name, op, prox, f, ind, dist, proj
        self.cfg = cfg or {}
        self.arrays = arrays or {}

    def __repr__(self):
        return f"{self.name}{self.cfg}"


def from_spec(s):
    return Term(s.name, s.make, s.prox, s.f, s.ind, s.dist, cfg=s.cfg, arrays=s.arrays)


def t_fun(rng, n, cplx):
    """A finite convex functional."""
    P = C.P()
    k = int(rng.integers(0, 8))
    sg = gen.logu(rng, .1, 2)
    if k == 0:
        b = gen.vec(rng, n, 1.0, None, cplx, "normal")
        return Term("L1-g", lambda: P.L1(sg, g=b), lambda x, t: b + C.soft(x - b, t * sg), lambda x: sg * float(np.abs(x - b).sum()), cfg=dict(sigma=sg, g=b))
    if k == 1:
        return Term("Euclidean", lambda: P.Euclidean(sg), lambda x, t: max(0., 1 - t * sg / max(np.linalg.norm(x), 1e-300)) * x,
                    lambda x: sg * float(np.linalg.norm(x)), cfg=dict(sigma=sg))
    if k == 2:
        b = gen.vec(rng, n, 1.0, None, cplx, "normal")
        return Term("L2", lambda: P.L2(b=b, sigma=sg), lambda x, t: (x + t * sg * b) / (1 + t * sg), lambda x: sg / 2 * float(np.sum(np.abs(x - b) ** 2)), cfg=dict(sigma=sg, b=b))
    if k == 3:
        v = gen.vec(rng, n, 1.0, None, False, "normal")
        if cplx:
            k = 4
        else:
            return Term("L1+v", lambda: P.L1(sg) + v, lambda x, t: C.soft(x - t * v, t * sg), lambda x: sg * float(np.abs(x).sum()) + float(v @ x), cfg=dict(sigma=sg, v=v))
    if k == 4:
        return Term("L1", lambda: P.L1(sg), lambda x, t: C.soft(x, t * sg), lambda x: sg * float(np.abs(x).sum()), cfg=dict(sigma=sg))
    if k == 5:
        a = gen.logu(rng, .1, 2)

        def hf(x):
            r = np.abs(x)
            return float(np.sum(np.where(r <= a, r ** 2 / (2 * a), r - a / 2)))
        return Term("Huber", lambda: P.Huber(a), lambda x, t: x * (1 - t / np.maximum(np.abs(x), a + t)), hf, cfg=dict(alpha=a))
    if k == 6 and n >= 2 and not cplx:
        # quadratic form
        A = gen.spd(rng, n)
        q = rng.standard_normal(n)
        return Term("Quadratic", lambda: P.Quadratic(gen.dense(A), b=q, niter=400), lambda x, t: np.linalg.solve(np.eye(n) + t * A, x - t * q),
                    lambda x: float(.5 * x @ A @ x + q @ x), cfg=dict(A=A, b=q))
    c = gen.logu(rng, .3, 3)
    return Term("c*L1(ax+b)", lambda: c * P.L1(1.0).precomposition(-2.0, .5), lambda x, t: (C.soft(-2 * x + .5, 4 * t * c) - .5) / -2,
                lambda x: c * float(np.abs(-2 * x + .5).sum()), cfg=dict(c=c))


def t_set(rng, z, cplx=False):
    """A closed convex set containing z."""
    P = C.P()
    n = z.size
    J = P.projection
    k = int(rng.integers(0, 7))
    room = float(rng.choice([.05, .3, 1.]))
    if k in (0, 6) and not cplx:
        lo, hi = z - rng.uniform(0.05, 1, n) * 2 * room, z + rng.uniform(0.05, 1, n) * 2 * room
        if rng.random() < .4:
            if rng.random() < .5:
                lo = -np.inf
            else:
                hi = np.inf
        return Term("Box", lambda: P.Box(lo, hi), lambda x, t: np.where(x < lo, lo, np.where(x > hi, hi, x)), lambda x: 0., True,
                    lambda x: float(np.max(np.maximum(np.maximum(lo - x, x - hi), 0))), lambda: J.BoxProj(lo, hi), dict(lower=lo, upper=hi))
    if k == 1 and not cplx:
        w = rng.standard_normal(n) * gen.logu(rng, .3, 3)
        b = float(w @ z) + room * float(np.linalg.norm(w)) * rng.uniform(.1, 1)
        return Term("HalfSpace", lambda: P.HalfSpace(w, b), lambda x, t: x - max(float(w @ x) - b, 0.) / float(w @ w) * w, lambda x: 0., True,
                    lambda x: max(0., float(w @ x) - b) / float(np.linalg.norm(w)), lambda: J.HalfSpaceProj(w, b), dict(w=w, b=b))
    if k == 2 or cplx and k < 4:
        c = z + gen.vec(rng, n, .5, None, cplx, "normal")
        r = float(np.linalg.norm(z - c)) + room

        def pr(x, t):
            d = x - c
            nd = float(np.linalg.norm(d))
            return x.copy() if nd <= r else c + d * (r / nd)
        return Term("EuclideanBall", lambda: P.EuclideanBall(c, r), pr, lambda x: 0., True, lambda x: max(0., float(np.linalg.norm(x - c)) - r),
                    lambda: J.EuclideanBallProj(c, r), dict(center=c, radius=r))
    if k == 3 and n >= 2:
        # affine set, one or two equations
        A = gen.mat(rng, min(n - 1, int(rng.integers(1, 3))), n, False, 3.0)
        b = A @ z
        G = np.linalg.inv(A @ A.T)

        def aff(x, t=1.):
            return x - A.T @ (G @ (A @ x - b))
        # the library's own affine projection stops at a relative residual: an exact user-written projection instead
        return Term("Affine", lambda: user_indicator(aff, lambda x: float(np.linalg.norm(A @ x - b)) <= 1e-7 * (1 + float(np.linalg.norm(x)))), aff, lambda x: 0., True,
                    lambda x: float(np.linalg.norm(A @ x - b)), lambda: aff, dict(A=A, b=b))
    if k == 4 or cplx:
        r = float(np.abs(z).sum()) + room
        return Term("L1Ball", lambda: P.L1Ball(n, r, maxiter=400, xtol=1e-13), lambda x, t: C.l1ball_exact(x, r), lambda x: 0., True,
                    lambda x: max(0., float(np.abs(x).sum()) - r), lambda: J.L1BallProj(n, r, 400, 1e-13), dict(n=n, radius=r))
    a = rng.standard_normal()
    lo = float(z.min() - room)
    return Term("Orthant", lambda: P.Box(lower=lo), lambda x, t: np.maximum(x, lo), lambda x: 0., True, lambda x: float(np.max(np.maximum(lo - x, 0))),
                lambda: J.BoxProj(lo), dict(lower=lo))


_UI = []


def user_indicator(proj, inside):
    if not _UI:
        from pyproximal.ProxOperator import ProxOperator, _check_tau

        class UserIndicator(ProxOperator):
            def __init__(self, proj, inside):
                super().__init__(None, False)
                self.p, self.i = proj, inside

            def __call__(self, x):
                return bool(self.i(x))

            @_check_tau
            def prox(self, x, tau):
                return self.p(x)
        _UI.append(UserIndicator)
    return _UI[0](proj, inside)


class Slow(Exception):
    pass


def best(terms, x0, tau, cs=None, cycles=6000):
    """Minimiser of sum_i c_i f_i + |.-x0|^2/(2 tau) by cyclic proximal corrections, certified:
    every partial point within d of the result bounds the error by sqrt(d * (sum of corrections))."""
    m = len(terms)
    cs = cs or [1.0] * m
    x = x0.astype(np.result_type(x0, float))
    p = [np.zeros_like(x) for _ in range(m)]
    sc = 1 + float(np.abs(x0).max(initial=0))
    for k in range(cycles):
        ys = []
        for i in range(m):
            y = terms[i].prox(x + p[i], tau * cs[i])
            p[i] = x + p[i] - y
            x = y
            ys.append(y)
        d = max(float(np.abs(y - x).max(initial=0)) for y in ys)
        if k and d < 1e-14 * sc and float(np.abs(x - xo).max(initial=0)) < 1e-14 * sc:
            err = np.sqrt(d * sum(float(np.abs(q).sum()) for q in p) * 2) + d
            if err < 1e-7 * sc:
                return x, p
            raise Slow
        xo = x
    raise Slow


def parallel_steps(terms, x0, taus, w, ref, sc, most=4000):
    """How many rounds the documented parallel scheme needs to come close to the minimiser."""
    z = [x0.astype(np.result_type(x0, float)) for _ in terms]
    for k in range(most):
        pr = [t.prox(zi, ti) for t, zi, ti in zip(terms, z, taus)]
        x = sum(wi * q for wi, q in zip(w, pr))
        z = [zi + x - q for zi, q in zip(z, pr)]
        if float(np.abs(x - ref).max(initial=0)) < 1e-8 * sc and max(float(np.abs(q - x).max(initial=0)) for q in pr) < 1e-8 * sc:
            return k + 1
    raise Slow


def cyclic_steps(terms, x0, taus, ref, sc, most=4000):
    x = x0.astype(np.result_type(x0, float))
    p = [np.zeros_like(x) for _ in terms]
    for k in range(most):
        ok = True
        for i, t in enumerate(terms):
            y = t.prox(x + p[i], taus[i])
            p[i] = x + p[i] - y
            x = y
            ok &= float(np.abs(y - ref).max(initial=0)) < 1e-8 * sc
        if ok:
            return k + 1
    raise Slow


def start(rng, n, cplx, z):
    x = gen.vec(rng, n, 1.0, None, cplx, str(rng.choice(["normal", "normal", "sparse", "ties", "zero", "const", "near"])))
    if rng.random() < .15:
        x = x * 10
    if rng.random() < .1:
        x = z + 0 * x
    return x


def active(p, sc):
    return sum(float(np.abs(q).max(initial=0)) > 1e-6 * sc for q in p)


def draw_terms(rng, k, n, cplx, z):
    out = []
    for _ in range(k):
        out.append(t_set(rng, z, cplx) if rng.random() < .45 else t_fun(rng, n, cplx))
    return out


def point(rng, n, cplx):
    return gen.vec(rng, n, 1.0, None, cplx, "normal")


def sums(m):
    rng = m.rng
    cplx = bool(rng.random() < .15)
    n = int(rng.integers(1, 7))
    z = point(rng, n, cplx)
    k = [1, 2, 2, 2, 3, 3, 4, 6][m.index % 8]
    terms = draw_terms(rng, k, n, cplx, z)
    tau = gen.logu(rng, .1, 6)
    x0 = start(rng, n, cplx, z)
    sc = 1 + max(float(np.abs(x0).max()), float(np.abs(z).max()))
    par = bool(rng.random() < .5)
    orig = bool(rng.random() < .25)
    parallel = k > 2 or (k == 2 and par)
    w = None
    if rng.random() < .6:
        w = rng.random(k) + float(rng.choice([.02, .1, 1.]))
        w = [float(v) for v in w / w.sum()]
    ww = w if w is not None else [1.0 / k] * k
    cs = [1.0] * k
    if parallel and orig:
        cs = ww
    m.describe(terms=[str(t) for t in terms], tau=tau, x0=x0, parallel=parallel, orig=orig, weights=w)
    try:
        ref, p = best(terms, x0, tau, cs)
        if k == 1:
            need = 1
        elif parallel:
            taus = [tau] * k if orig else [tau / v for v in ww]
            need = parallel_steps(terms, x0, taus, ww, ref, sc)
        else:
            need = cyclic_steps(terms, x0, [tau] * k, ref, sc)
    except Slow:
        m.event("skipped: too slow to certify")
        return
    kw = dict(terms=terms, x0=x0, tau=tau, k=k, parallel=parallel, orig=orig, weights=w)
    warr = np.array(w) if w is not None and rng.random() < .5 else w

    def build(tol, niter, order=None):
        order = order if order is not None else range(k)
        return C.P().Sum([terms[i].op() for i in order], weights=warr if w is None or list(order) == list(range(k)) else [w[i] for i in order],
                         niter=niter, tol=tol, use_parallel=par, use_original_tau=orig)
    S = build(0., 2 * need + 60)
    got = S.prox(x0.copy(), tau)
    m.event(f"terms:{min(k, 4)} {'parallel' if parallel else 'sequential'}")
    m.close(got, ref, "the proximal step of a sum is its minimiser", 2e-6 * sc, **kw)
    # not stopped before it gets there
    got = build(1e-10, 60 * need + 4000).prox(x0.copy(), tau)
    m.close(got, ref, "the proximal step stops only at the minimiser", 2e-4 * sc, **kw)
    if m.fails:
        return
    if rng.random() < .4 and k > 1:
        order = list(rng.permutation(k))
        try:
            if not parallel:
                need = max(need, cyclic_steps([terms[i] for i in order], x0, [tau] * k, ref, sc))
            got = build(0., 2 * need + 60, order).prox(x0.copy(), tau)
            m.close(got, ref, "the order of the terms does not matter", 2e-6 * sc, order=order, **kw)
            m.event("permuted")
        except Slow:
            pass
    if rng.random() < .3:
        # derived dual step
        s = 1 / tau
        y = x0 * s
        m.close(S.proxdual(y.copy(), s), y - s * S.prox(y / s, 1 / s), "dual step of a sum", 1e-7 * sc * (1 + s), **kw)
    # objective: nothing is better
    if not any(t.ind for t in terms):
        def J(v):
            return sum(c * t.f(v) for c, t in zip(cs, terms)) + float(np.sum(np.abs(v - x0) ** 2)) / (2 * tau)
        jp = J(got)
        for _ in range(6):
            q = got + gen.vec(rng, n, 10. ** rng.uniform(-3, 0), None, cplx, "normal")
            m.le(jp, J(q), "no point has a lower objective than the step of the sum", 1e-4 * sc * sc * (1 + 1 / tau), q=q, **kw)
    if active(p, sc) >= min(2, k):
        m.nontrivial(x0.tobytes(), tau, k, parallel)


def values(m):
    """Value rules of a sum."""
    rng = m.rng
    cplx = bool(rng.random() < .15)
    n = int(rng.integers(1, 7))
    z = point(rng, n, cplx)
    k = int(rng.integers(1, 6))
    terms = draw_terms(rng, k, n, cplx, z)
    w = None
    if rng.random() < .5:
        w = rng.random(k) + .1
        w = list(w / w.sum())
    S = C.P().Sum([t.op() for t in terms], weights=w, use_parallel=bool(rng.random() < .5), use_original_tau=bool(rng.random() < .5))
    for _ in range(4):
        x = z + gen.vec(rng, n, float(rng.choice([0., .01, .3, 3.])), None, cplx, "normal")
        far = [t for t in terms if t.ind and t.dist(x) > 1e-3]
        near = [t for t in terms if t.ind and 1e-12 < t.dist(x) <= 1e-3]
        sets = [t for t in terms if t.ind]
        if near:
            continue
        kw = dict(terms=terms, x=x, weights=w)
        v = S(x)
        if far:
            m.ok(v is False or (isinstance(v, np.bool_) and not v), "a sum with a violated indicator is false", got=v, far=far, **kw)
            m.event("a term violated")
        elif len(sets) == len(terms):
            m.ok(v is True or (isinstance(v, np.bool_) and v), "a sum of satisfied indicators is true", got=v, **kw)
            m.event("all indicators satisfied")
        else:
            want = sum(t.f(x) for t in terms if not t.ind)
            m.ok(isinstance(v, (float, np.floating)) and not isinstance(v, bool), "the value of a sum is a number", got=v, **kw)
            m.close(v, want, "the value of a sum is the sum of the values", 1e-9 * (1 + abs(want)), **kw)
            m.event("numbers")
    m.nontrivial(z.tobytes(), k)
    m.describe(terms=[str(t) for t in terms])


def nearest(m):
    """Projection on an intersection of general sets, as projection and as functional."""
    rng = m.rng
    cplx = bool(rng.random() < .1)
    n = int(rng.integers(1, 7))
    z = point(rng, n, cplx)
    k = [1, 2, 2, 3, 3, 4, 5][m.index % 7]
    terms = [t_set(rng, z, cplx) for _ in range(k)]
    x0 = start(rng, n, cplx, z)
    sc = 1 + max(float(np.abs(x0).max()), float(np.abs(z).max()))
    par = bool(rng.random() < .5)
    m.describe(sets=[str(t) for t in terms], x0=x0, par=par)
    try:
        ref, p = best(terms, x0, 1.)
        need = cyclic_steps(terms, x0, [1.] * k, ref, sc) if k > 1 else 1
    except Slow:
        m.event("skipped: too slow to certify")
        return
    P = C.P()
    kw = dict(sets=terms, x0=x0, parallel=par)
    for eng in ((par, not par) if k == 2 else (par,)):
        G = P.projection.GenericIntersectionProj([t.proj() for t in terms], niter=2 * need + 60, tol=0., use_parallel=eng)
        got = G(x0.copy())
        m.close(got, ref, "the projection on an intersection is its nearest point", 2e-6 * sc, engine=eng, **kw)
        for t in terms:
            m.le(t.dist(got), 0, "the projection lies in every set", 1e-5 * sc, engine=eng, which=t, **kw)
        m.event(f"sets:{min(k, 4)} engine:{eng}")
    F = P.GenericIntersectionProx([t.proj() for t in terms], niter=60 * need + 4000, tol=1e-10, use_parallel=par)
    got = F.prox(x0.copy(), gen.tau(rng))
    m.close(got, ref, "the proximal step of an intersection is the projection", 2e-4 * sc, **kw)
    # indicator
    tol = float(rng.choice([1e-6, 1e-4]))
    F = P.GenericIntersectionProx([t.proj() for t in terms], niter=60 * need + 4000, tol=tol, use_parallel=par)
    for y in (z, x0, ref, z + gen.vec(rng, n, .3, None, cplx, "normal")):
        gap = max(float(np.abs(y - t.prox(y, 1.)).max()) for t in terms)
        if gap < 1e-8 * sc:
            m.ok(F(y) is True or bool(F(y)), "points of every set belong to the intersection", y=y, gap=gap, **kw)
        elif gap > 100 * tol:
            m.ok(not F(y), "points outside one set do not belong to the intersection", y=y, gap=gap, **kw)
        m.event("membership answers")
    if rng.random() < .4 and k > 1:
        order = list(rng.permutation(k))
        try:
            need = max(need, cyclic_steps([terms[i] for i in order], x0, [1.] * k, ref, sc))
            G = P.projection.GenericIntersectionProj([terms[i].proj() for i in order], niter=2 * need + 60, tol=0., use_parallel=par)
            m.close(G(x0.copy()), ref, "the order of the sets does not matter", 2e-6 * sc, order=order, **kw)
        except Slow:
            pass
    # a sum of indicators projects on the intersection
    if rng.random() < .4:
        try:
            w = [1. / k] * k
            steps = need if not (k > 2 or par) else parallel_steps(terms, x0, [1.] * k, w, ref, sc)
            got = P.Sum([t.op() for t in terms], niter=2 * steps + 60, tol=0., use_parallel=par).prox(x0.copy(), 1.)
            m.close(got, ref, "a sum of indicators projects on the intersection", 2e-6 * sc, **kw)
            m.event("sum of indicators")
        except Slow:
            pass
    if active(p, sc) >= min(2, k):
        m.nontrivial(x0.tobytes(), k, par)


def differences(m):
    """The intersection of bounded differences used for labelling."""
    rng = m.rng
    k, n = int(rng.integers(2, 6)), int(rng.integers(1, 5))
    if rng.random() < .5:
        S = float(rng.choice([0.05, .3, 1., 2.]))
        B = S * np.ones((k, k))
    else:
        S = rng.uniform(.05, 1.5, (k, k))
        B = S
        if rng.random() < .6:
            S = B = (S + S.T) / 2
    x0 = gen.vec(rng, k * n, 1.0, None, False, str(rng.choice(["normal", "ties", "sparse", "zero", "const", "uniform"]))) * float(rng.choice([1., 3.]))
    N, bnd = [], []
    for a in range(k - 1):
        for c in range(a + 1, k):
            e = np.zeros(k)
            e[a], e[c] = 1, -1
            N += [e, -e]
            bnd += [B[a, c]] * 2
    N, bnd = np.array(N), np.array(bnd)
    X = x0.reshape(k, n)
    ref = np.stack([C._hildreth(X[:, j], N, bnd, 20000) for j in range(n)], axis=1).ravel()
    P = C.P()
    kw = dict(k=k, n=n, sigma=S, x0=x0)
    pr = P.projection.IntersectionProj(k, n, S, niter=20000, tol=1e-10)
    got = pr(x0.copy())
    m.close(got, ref, "projection on bounded differences", 1e-5 * (1 + float(np.abs(x0).max())), **kw)
    m.le(float(np.max(np.abs(N @ got.reshape(k, n)) - np.concatenate([bnd[:, None]], axis=1))), 0, "all differences are bounded", 1e-5 * (1 + float(np.abs(x0).max())), **kw)
    # every column is a separate problem
    if n > 1:
        j = int(rng.integers(0, n))
        one = P.projection.IntersectionProj(k, 1, S, niter=20000, tol=1e-10)(np.ascontiguousarray(X[:, j]))
        m.close(one, got.reshape(k, n)[:, j], "columns are projected separately", 1e-5 * (1 + float(np.abs(x0).max())), **kw)
    op = P.Intersection(k, n, S, niter=20000, tol=1e-10)
    m.close(op.prox(x0.copy(), gen.tau(rng)), got, "the functional projects", 0, **kw)
    y = (rng.standard_normal(n)[None, :] + rng.uniform(-.5, .5, (k, n)) * B[np.triu_indices(k, 1)].min() * .99)
    m.ok(bool(op(y.ravel())), "points of the set belong to it", y=y, **kw)
    viol = float(np.max(np.abs(N @ X) - bnd[:, None]))
    if viol > 1e-2:
        m.ok(not op(x0.copy()), "points outside do not belong", **kw)
    m.event("bounded differences")
    if np.any(np.abs(ref - x0) > 1e-6):
        m.nontrivial(x0.tobytes(), k)
    m.describe(**kw)


def coincidence(m):
    """Symmetric problems in which averages stall although the terms still disagree."""
    rng = m.rng
    P = C.P()
    n = int(rng.integers(1, 5))
    u = float(rng.choice([.5, 1., 2.]))
    k = int(rng.integers(2, 5))
    tau = float(rng.choice([.5, 1., 2.]))
    # start at distance u above a bound, the other terms pull away from the bound by the same amount
    hi = rng.choice([-1., 0., 1.], n)
    x0 = hi + u
    lin = [np.full(n, 0.) for _ in range(k - 1)]
    lin[0] = np.full(n, -u / tau)
    order = list(rng.permutation(k))
    w = [1. / k] * k
    terms = [Term("Box", lambda: P.Box(upper=hi), lambda x, t: np.minimum(x, hi), lambda x: 0., True, lambda x: float(np.max(np.maximum(x - hi, 0))), lambda: P.projection.BoxProj(-np.inf, hi), dict(upper=hi))]
    for v in lin:
        # with the steps tau/w the shift must be u: scale accordingly
        vv = v / k
        terms.append(Term("linear", lambda vv=vv: P.Quadratic(b=vv, c=0.), lambda x, t, vv=vv: x - t * vv, lambda x, vv=vv: float(vv @ x), cfg=dict(b=vv)))
    terms = [terms[i] for i in order]
    try:
        ref, p = best(terms, x0, tau)
        need = max(parallel_steps(terms, x0, [tau / v for v in w], w, ref, 1 + u), cyclic_steps(terms, x0, [tau] * k, ref, 1 + u))
    except Slow:
        m.event("skipped: too slow to certify")
        return
    for par in (False, True):
        got = P.Sum([t.op() for t in terms], niter=60 * need + 4000, tol=1e-9, use_parallel=par).prox(x0.copy(), tau)
        m.close(got, ref, "the step does not stop while the terms disagree", 1e-4 * (1 + u), terms=terms, x0=x0, tau=tau, parallel=par)
    m.event("stalling averages")
    m.nontrivial(x0.tobytes(), tau, k, str(order))
    m.describe(terms=[str(t) for t in terms], x0=x0, tau=tau)


def nested(m):
    """Sums of sums, and sums transformed by the operator algebra."""
    rng = m.rng
    P = C.P()
    n = int(rng.integers(1, 5))
    z = point(rng, n, False)
    terms = draw_terms(rng, 3, n, False, z)
    tau = gen.logu(rng, .2, 3)
    x0 = start(rng, n, False, z)
    sc = 1 + max(float(np.abs(x0).max()), float(np.abs(z).max()))
    kind = ["nest", "+v", "scale", "pre"][m.index % 4]
    kw = dict(kind=kind, terms=terms, x0=x0, tau=tau)
    mk = dict(niter=3000, tol=1e-11)
    par = bool(rng.random() < .5)
    try:
        if kind == "nest":
            ref, p = best(terms, x0, tau)
            op = P.Sum([terms[0].op(), P.Sum([terms[1].op(), terms[2].op()], use_parallel=par, **mk)], niter=400, tol=1e-9)
            want = ref
        else:
            two = terms[:2]
            if kind == "+v":
                v = rng.standard_normal(n)
                want, p = best(two, x0 - tau * v, tau)
                op = P.Sum([t.op() for t in two], use_parallel=par, **mk) + v
            elif kind == "scale":
                c = gen.logu(rng, .3, 3)
                want, p = best(two, x0, tau * c)
                op = c * P.Sum([t.op() for t in two], use_parallel=par, **mk)
            else:
                a = float(rng.choice([-2., .5]))
                b = rng.standard_normal(n)
                q, p = best(two, a * x0 + b, tau * a * a)
                want = (q - b) / a
                op = P.Sum([t.op() for t in two], use_parallel=par, **mk).precomposition(a, b)
            need = (parallel_steps(two, x0, [2 * tau] * 2, [.5] * 2, best(two, x0, tau)[0], sc) if par else cyclic_steps(two, x0, [tau] * 2, best(two, x0, tau)[0], sc))
            if need > 300:
                raise Slow
        if kind == "nest":
            if cyclic_steps(terms, x0, [tau] * 3, ref, sc) > 60:
                raise Slow
    except Slow:
        m.event("skipped: too slow to certify")
        return
    m.close(op.prox(x0.copy(), tau), want, "sums compose with the rest of the algebra", 2e-4 * sc * 4, par=par, **kw)
    m.event("composed sums")
    m.nontrivial(x0.tobytes(), kind)
    m.describe(kind=kind, terms=[str(t) for t in terms])


GROUPS = [("sums", sums, 1200, 5000), ("values", values, 600, 2500), ("nearest", nearest, 750, 3500),
          ("differences", differences, 180, 800), ("coincidence", coincidence, 120, 400), ("nested", nested, 180, 700)]
