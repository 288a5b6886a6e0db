"""P14: matrix functionals act on singular values only and commute with rotations of either side."""
import numpy as np

import catalog as C
import gen

PROP = "P14"
RULE = ("one case = one matrix functional with drawn shape and weights and a matrix with prescribed singular values (repeated, zero and near thresholds), its value "
        "and steps compared under rotations, transposition, padding and with the vector operation; non-trivial when the step changed some singular values and kept others non-zero")

SHAPES = [(1, 1), (1, 4), (5, 1), (2, 2), (3, 3), (4, 4), (2, 5), (3, 4), (5, 3), (6, 2), (7, 4), (3, 8), (6, 6)]


class Fun:
    """A spectral functional: vec(s, t) acts on sorted singular values, val(s) their value."""

    def __init__(self, name, make, vec, val, *, member=None, tol=1e-9, jump=False, dual=True, cfg=None):
        self.name, self.make, self.vec, self.val, self.member = name, make, vec, val, member
        self.tol, self.jump, self.dual, self.cfg = tol, jump, dual, cfg or {}


PEN = ["L1", "L0", "Huber", "ETP", "Geman", "Log", "SCAD", "QuadraticEnvelopeCard", "QuadraticEnvelopeCardIndicator", "L2", "Box", "user", "L0Ball", "Sum"]


def penalty(rng, k):
    P = C.P()
    nm = str(rng.choice(PEN))
    sg, a = gen.logu(rng, .1, 3), gen.logu(rng, .3, 3)
    mk = {"L1": lambda: P.L1(sg), "L0": lambda: P.L0(sg), "Huber": lambda: P.Huber(a), "ETP": lambda: P.ETP(sg, a), "Geman": lambda: P.Geman(sg, a),
          "Log": lambda: P.Log(sg, a), "SCAD": lambda: P.SCAD(sg, 2.1 + a), "QuadraticEnvelopeCard": lambda: P.QuadraticEnvelopeCard(sg),
          "QuadraticEnvelopeCardIndicator": lambda: P.QuadraticEnvelopeCardIndicator(1 + int(a * 10) % max(k, 1)), "L2": lambda: P.L2(sigma=sg),
          "Box": lambda: P.Box(0., sg), "user": None, "L0Ball": lambda: P.L0Ball(int(a * 10) % (k + 1)), "Sum": lambda: P.Sum([P.L1(sg), P.L2(sigma=a)], niter=500, tol=1e-13)}[nm]
    if nm == "user":
        from pyproximal.ProxOperator import ProxOperator, _check_tau

        class User(ProxOperator):
            def __init__(self):
                super().__init__(None, False)

            def __call__(self, x):
                return float(np.sum(np.log1p(np.abs(x)) * sg))

            @_check_tau
            def prox(self, x, tau):
                return x / (1 + sg * tau * np.arange(1, x.size + 1))

        mk = User
    return nm, mk, dict(sigma=sg, a=a)


def draw_fun(rng, dim, which):
    P = C.P()
    k = min(dim)
    if which == 0:
        s = gen.logu(rng, .05, 4)
        return Fun("Nuclear", lambda d: P.Nuclear(d, sigma=s), lambda v, t: np.maximum(v - t * s, 0), lambda v: s * float(v.sum()), cfg=dict(sigma=s))
    if which == 1:
        w = np.exp(rng.uniform(np.log(.05), np.log(4), k + int(rng.integers(0, 3))))
        if rng.random() < .7:
            w = np.sort(w)
        if rng.random() < .2:
            w[int(rng.integers(0, w.size))] = 0.
        if w.size == 1:
            w = np.append(w, w[0] + 1)
        return Fun("Nuclear[weights]", lambda d: P.Nuclear(d, sigma=w), lambda v, t: np.maximum(v - t * w[:k], 0), lambda v: float((w[:k] * v).sum()), dual=False, cfg=dict(sigma=w))
    if which == 2:
        r = float(rng.choice([0., .2, 1., 3., 30.]))
        return Fun("NuclearBall", lambda d: P.NuclearBall(d, r, maxiter=400, xtol=1e-13), lambda v, t: C.l1ball_exact(v, r), None, member=lambda v: float(v.sum()) - r, tol=1e-7, cfg=dict(radius=r))
    nm, mk, cfg = penalty(rng, k)
    convex = nm in ("L1", "Huber", "L2", "Box", "Sum", "user")

    def val(v):
        return float(np.sum(mk()(v)))
    return Fun(f"SingularValuePenalty[{nm}]", lambda d: P.SingularValuePenalty(d, mk()), lambda v, t: mk().prox(v.copy(), t), val if nm not in ("L0", "L0Ball", "Box") else None,
               jump=not convex, dual=False, tol=1e-9 if nm != "Sum" else 1e-7, cfg=cfg)


def unitary(rng, n, cplx):
    Q = gen.orth(rng, n, cplx)
    if rng.random() < .3:         # permutations and reflections
        Q = np.eye(n)[rng.permutation(n)] * rng.choice([-1., 1.], n)
        if cplx:
            Q = Q * np.exp(1j * rng.uniform(0, 6, n))
    return Q


def singular(rng, k, t):
    kind = str(rng.choice(["normal", "repeated", "deficient", "wide", "zero", "near", "huge"], p=[.35, .15, .2, .1, .03, .12, .05]))
    s = np.abs(rng.standard_normal(k)) * gen.logu(rng, .3, 8)
    if kind == "repeated":
        s = rng.choice([1., 1., 2., .5], k) * gen.logu(rng, .3, 4)
    elif kind == "deficient":
        s[int(rng.integers(0, k)):] = 0
    elif kind == "wide":
        s = 10. ** rng.uniform(-6, 3, k)
    elif kind == "zero":
        s = np.zeros(k)
    elif kind == "near":
        s = t * (1 + rng.choice([-.1, .1, .3, 2.], k))
    elif kind == "huge":
        s = s * 1e6
    return np.sort(s)[::-1].copy(), kind


def spectral(m):
    rng = m.rng
    dim = SHAPES[int(rng.integers(0, len(SHAPES)))]
    cplx = bool(rng.random() < .25)
    k = min(dim)
    f = draw_fun(rng, dim, [0, 1, 2, 3, 3, 3][m.index % 6])
    t = gen.tau(rng)
    s, kind = singular(rng, k, t * float(np.max(np.abs(f.cfg.get("sigma", 1.)))))
    U, V = gen.orth(rng, dim[0], cplx)[:, :k], gen.orth(rng, dim[1], cplx)[:, :k]
    if f.member is not None and rng.random() < .5 and s.sum() > 0 and f.cfg["radius"] > 0:
        # close to the boundary of the ball, inside or outside
        s = s * (f.cfg["radius"] / s.sum() * (1 + float(rng.choice([1., 1., -1.])) * gen.logu(rng, 1e-7, 3e-2)))
        kind = "at the boundary"
    X = (U * s) @ V.conj().T
    sc = 1 + float(s.max(initial=0))
    tol = f.tol * sc * 10
    m.describe(fun=f.name, cfg=f.cfg, dim=dim, singular=s, tau=t, cplx=cplx)
    m.event("fun:" + f.name.split("[")[0] + ("[complex]" if cplx else ""))
    m.event("singular values:" + kind)
    m.event("shape:" + ("tall" if dim[0] > dim[1] else "wide" if dim[0] < dim[1] else "square"))
    kw = dict(fun=f.name, cfg=f.cfg, dim=dim, s=s, tau=t, cplx=cplx)
    ref = f.vec(s, t)
    if f.jump:
        # a discontinuous step is only comparable away from its jumps
        for e in (1e-7, -1e-7):
            if np.abs(f.vec(np.maximum(s * (1 + e) + e * sc * (s > 0), 0), t) - ref).max() > 1e-4 * sc:
                m.event("skipped: at a jump")
                return
        if len(np.unique(np.round(s[s > 0], 9))) < np.sum(s > 0) and ("Indicator" in f.name or "L0Ball" in f.name):
            return      # which of two equal values is kept is free
    if ("user" in f.name or "weights" in f.name) and np.any(s > 0):
        pos = s[s > 0]
        if pos.size > 1 and np.min(pos[:-1] - pos[1:]) < 1e-4 * sc:
            return      # equal values with different weights: the vectors are not unique
        tol = tol * 10
    # roundoff in zero singular values must not be amplified by the operation
    P1 = f.make(dim).prox(X.ravel().copy(), t)
    m.ok(P1.shape == (dim[0] * dim[1],) or P1.size == X.size, "shape of the step", got=P1.shape, **kw)
    m.ok(cplx or not np.iscomplexobj(P1), "real matrices give real steps", **kw)
    Y = P1.reshape(dim)
    want = (U * ref) @ V.conj().T
    m.close(Y, want, "singular vectors are kept and singular values are those of the vector operation", tol, **kw)
    m.close(np.sort(np.linalg.svd(Y, compute_uv=False)), np.sort(np.abs(ref)), "singular values of the step", tol, **kw)
    if m.fails:
        return
    # rotations
    Q1, Q2 = unitary(rng, dim[0], cplx), unitary(rng, dim[1], cplx)
    Z = f.make(dim).prox(np.ascontiguousarray(Q1 @ X @ Q2).ravel(), t).reshape(dim)
    m.close(Z, Q1 @ Y @ Q2, "rotating the input rotates the step", 2 * tol, **kw)
    if not cplx and rng.random() < .3:
        C1 = gen.orth(rng, dim[0], True)
        Z = f.make(dim).prox(np.ascontiguousarray(C1 @ X).ravel(), t).reshape(dim)
        m.close(Z, C1 @ Y, "a unitary rotation of a real matrix", 2 * tol, **kw)
    # transposition
    Z = f.make(dim[::-1]).prox(np.ascontiguousarray(X.T).ravel(), t).reshape(dim[::-1])
    m.close(Z, Y.T, "transposing the input transposes the step", 2 * tol, **kw)
    # padding with zero rows adds no singular value (when the shorter side stays)
    if dim[0] >= dim[1]:
        d2 = (dim[0] + int(rng.integers(1, 3)), dim[1])
        Z = f.make(d2).prox(np.vstack([X, np.zeros((d2[0] - dim[0], dim[1]))]).ravel(), t).reshape(d2)
        m.close(Z, np.vstack([Y, np.zeros((d2[0] - dim[0], dim[1]))]), "zero rows stay zero and change nothing", 2 * tol, **kw)
    # diagonal input
    D = np.zeros(dim, dtype=X.dtype)
    D[np.arange(k), np.arange(k)] = s
    Z = f.make(dim).prox(D.ravel(), t).reshape(dim)
    E = np.zeros(dim, dtype=X.dtype)
    E[np.arange(k), np.arange(k)] = ref
    m.close(Z, E, "a diagonal matrix is treated as its diagonal", tol, **kw)
    # value
    op = f.make(dim)
    if f.val is not None:
        v, vr, want = op(X.ravel().copy()), op(np.ascontiguousarray(Q1 @ X @ Q2).ravel()), f.val(s)
        vt = 1e-8 * (1 + abs(want)) * sc
        m.close(v, want, "value is that of the singular values", vt, **kw)
        m.close(vr, want, "rotations leave the value unchanged", vt, **kw)
        m.close(f.make(dim[::-1])(np.ascontiguousarray(X.T).ravel()), want, "transposition leaves the value unchanged", vt, **kw)
        m.event("values")
    if f.member is not None:
        gap = f.member(s)
        if gap < -1e-3 or gap > 1e-3:
            m.ok(bool(op(X.ravel().copy())) == (gap < 0), "membership is that of the singular values", gap=gap, **kw)
            m.ok(bool(op(np.ascontiguousarray(Q1 @ X @ Q2).ravel())) == (gap < 0), "rotations leave membership unchanged", gap=gap, **kw)
            m.event("memberships")
        m.ok(bool(op(P1.copy())), "the projection belongs to the ball", **kw)
        pr = C.P().projection.NuclearBallProj(k, f.cfg["radius"], 400, 1e-13)
        m.close(pr(X.copy()), Y, "projection on matrices", tol, **kw)
    # dual step acts on singular values too
    if f.dual:
        d = f.make(dim).proxdual(X.ravel().copy(), t).reshape(dim)
        want = (U * (s - t * f.vec(s / t, 1 / t))) @ V.conj().T
        dt = tol * (1 + t)
        m.close(d, want, "dual step acts on singular values", dt, **kw)
        Z = f.make(dim).proxdual(np.ascontiguousarray(Q1 @ X @ Q2).ravel(), t).reshape(dim)
        m.close(Z, Q1 @ d @ Q2, "rotating the input rotates the dual step", 2 * dt, **kw)
        m.event("dual steps")
    if np.any(np.abs(ref - s) > 1e-9 * sc) and np.any(np.abs(ref) > 1e-9 * sc):
        m.nontrivial(f.name, X.tobytes(), t)


def rank(m):
    """The rank penalty with a quadratic term: rotating input and data together rotates the answer."""
    rng = m.rng
    dim = SHAPES[int(rng.integers(0, len(SHAPES)))]
    cplx = bool(rng.random() < .25)
    k = min(dim)
    r0 = int(rng.integers(1, k + 2))
    M = gen.mat(rng, *dim, cplx) * gen.logu(rng, .3, 3)
    t = gen.logu(rng, .05, 20)
    s, kind = singular(rng, k, 1.)
    if kind in ("huge", "repeated"):
        s = s[:1] * np.linspace(1, .3, k)
    X = (gen.orth(rng, dim[0], cplx)[:, :k] * s) @ gen.orth(rng, dim[1], cplx)[:, :k].conj().T
    P = C.P()
    Q1, Q2 = unitary(rng, dim[0], cplx), unitary(rng, dim[1], cplx)
    kw = dict(dim=dim, r0=r0, M=M, X=X, tau=t)
    m.describe(dim=dim, r0=r0, tau=t, cplx=cplx)
    rho = 1 / t
    Yb = (M + rho * X) / (1 + rho)
    U, sv, Vh = np.linalg.svd(Yb, full_matrices=False)
    # step of the penalty on singular values at the joint weight
    red = P.QuadraticEnvelopeCardIndicator(r0).prox(sv.copy(), 1 / (1 + rho))
    for e in (1e-7, -1e-7):
        if np.abs(P.QuadraticEnvelopeCardIndicator(r0).prox(sv * (1 + e), 1 / (1 + rho)) - red).max() > 1e-4 * (1 + sv.max()):
            return
    a = P.QuadraticEnvelopeRankL2(dim, r0, M).prox(X.ravel().copy(), t).reshape(dim)
    b = P.QuadraticEnvelopeRankL2(dim, r0, np.ascontiguousarray(Q1 @ M @ Q2)).prox(np.ascontiguousarray(Q1 @ X @ Q2).ravel(), t).reshape(dim)
    tol = 1e-7 * (1 + float(s.max()) + float(np.abs(M).max()))
    m.close(b, Q1 @ a @ Q2, "rotating data and input rotates the step", tol, **kw)
    m.close(a, (U * red) @ Vh, "the step acts on the singular values of the weighted mean", tol, **kw)
    c = P.QuadraticEnvelopeRankL2(dim[::-1], r0, np.ascontiguousarray(M.T)).prox(np.ascontiguousarray(X.T).ravel(), t).reshape(dim[::-1])
    m.close(c, a.T, "transposing data and input transposes the step", tol, **kw)
    va, vb = P.QuadraticEnvelopeRankL2(dim, r0, M)(X.ravel().copy()), P.QuadraticEnvelopeRankL2(dim, r0, np.ascontiguousarray(Q1 @ M @ Q2))(np.ascontiguousarray(Q1 @ X @ Q2).ravel())
    m.close(va, vb, "rotating data and input leaves the value unchanged", 1e-7 * (1 + abs(va)), **kw)
    m.event("rank penalty")
    m.nontrivial(X.tobytes(), r0, t)


def reduction(m):
    """On one row or column, and on rank-one matrices, the functionals are those of the Euclidean norm."""
    rng = m.rng
    P = C.P()
    n = int(rng.integers(1, 8))
    cplx = bool(rng.random() < .3)
    x = gen.vec(rng, n, 1., None, cplx, "normal")
    t, s = gen.tau(rng), gen.logu(rng, .1, 3)
    dim = (n, 1) if rng.random() < .5 else (1, n)
    m.describe(dim=dim, tau=t, sigma=s)
    e = P.Euclidean(s)
    nu = P.Nuclear(dim, s)
    sc = 1 + float(np.abs(x).max())
    m.close(nu(x.copy()), e(x.copy()), "one row or column: value of the Euclidean norm", 1e-9 * sc, x=x)
    m.close(nu.prox(x.copy(), t), e.prox(x.copy(), t), "one row or column: step of the Euclidean norm", 1e-9 * sc, x=x, tau=t)
    m.close(nu.proxdual(x.copy(), t), e.proxdual(x.copy(), t), "one row or column: dual step of the Euclidean norm", 1e-9 * sc * (1 + t), x=x, tau=t)
    r = gen.logu(rng, .1, 3)
    m.close(P.NuclearBall(dim, r, 400, 1e-13).prox(x.copy(), t), P.EuclideanBall(0., r).prox(x.copy(), t), "one row or column: ball of the Euclidean norm", 1e-7 * sc, x=x)
    y = gen.vec(rng, int(rng.integers(1, 6)), 1., None, cplx, "normal")
    y = y / np.linalg.norm(y)
    X = np.outer(x, y)
    d2 = X.shape
    m.close(P.Nuclear(d2, s).prox(X.ravel(), t), np.outer(e.prox(x.copy(), t), y).ravel(), "rank one: step of the Euclidean norm", 1e-9 * sc, x=x, y=y, tau=t)
    # equal weights are a scalar weight; a single weight in an array too
    k = min(d2)
    if k > 1:
        m.close(P.Nuclear(d2, np.full(k, s)).prox(X.ravel(), t), P.Nuclear(d2, s).prox(X.ravel(), t), "equal weights equal a scalar", 1e-10 * sc)
    m.event("reductions")
    m.nontrivial(x.tobytes(), t)


GROUPS = [("spectral", spectral, 3600, 12000), ("rank", rank, 480, 1500), ("reduction", reduction, 400, 1000)]
