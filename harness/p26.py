"""P26: complex inputs and single precision give the answers the mathematics demands."""
import traceback

import warnings

import numpy as np

import catalog as C
import common
import gen
import solvers as S

PROP = "P26"
RULE = ("one case = one operator or solver evaluated on an input and on its image under a symmetry of the documented functional (phases, permutations, unitary maps, real seen as complex, "
        "single precision), both observed results compared; non-trivial when the step moved the input without annihilating it")


# ------------------------------------------------------------------ symmetric families
def phases(rng, n):
    return np.exp(2j * np.pi * rng.random(n)) if rng.random() < .8 else rng.choice([1, -1, 1j, -1j], n).astype(complex)


def t_entry(rng, n):
    p = rng.permutation(n)
    return (phases(rng, n)[:, None] * np.eye(n)[p])


def t_phase(rng, n):
    return np.diag(phases(rng, n))


def t_unit(rng, n):
    return gen.orth(rng, n, True)


def c_vec(rng, n):
    return gen.vec(rng, n, 1., None, True, "normal")


def fam(rng, name):
    """name -> (n, T, make(), make_T(), real-valued functional invariant under T, stable) with make_T the image under T."""
    P = C.P()
    n = int(rng.integers(1, 9))
    sg = gen.logu(rng, .05, 5)
    if name == "L1":
        T = t_entry(rng, n)
        return n, T, lambda: P.L1(sigma=sg), None
    if name == "L1[g]":
        T, g = t_entry(rng, n), c_vec(rng, n)
        return n, T, lambda: P.L1(sigma=sg, g=g), lambda: P.L1(sigma=sg, g=T @ g)
    if name == "L0":
        T = t_entry(rng, n)
        return n, T, lambda: P.L0(sigma=sg), None
    if name == "L2":
        T = t_unit(rng, n)
        return n, T, lambda: P.L2(sigma=sg), None
    if name == "L2[b]":
        T, b = t_unit(rng, n), c_vec(rng, n)
        return n, T, lambda: P.L2(sigma=sg, b=b), lambda: P.L2(sigma=sg, b=T @ b)
    if name == "L2[bq]":
        # <q, x> is linear in the real inner product: rotate b and q together
        T, b, q = t_unit(rng, n), c_vec(rng, n), c_vec(rng, n)
        return n, T, lambda: P.L2(sigma=sg, b=b, q=q, alpha=.6), lambda: P.L2(sigma=sg, b=T @ b, q=T @ q, alpha=.6)
    if name == "Quadratic":
        T, b = t_unit(rng, n), c_vec(rng, n)
        A = gen.spd(rng, n, cplx=True)
        A2 = np.ascontiguousarray(T @ A @ T.conj().T)
        return n, T, lambda: P.Quadratic(Op=gen.dense(A), b=b, c=.3), lambda: P.Quadratic(Op=gen.dense(A2), b=T @ b, c=.3)
    if name == "linear":
        T, b = t_unit(rng, n), c_vec(rng, n)
        return n, T, lambda: P.Quadratic(b=b, c=.3), lambda: P.Quadratic(b=T @ b, c=.3)
    if name in ("L2[A]", "L2[free]"):
        T, k = t_unit(rng, n), int(rng.integers(1, 9))
        A, b = gen.mat(rng, k, n, True), c_vec(rng, k)
        if name == "L2[free]":      # what its inner conjugate gradients resolve in the iterations given
            A = A / max(1., np.linalg.norm(A, 2) / 1.5)
        U = t_unit(rng, k) if rng.random() < .5 else np.eye(k)
        A2, b2 = np.ascontiguousarray(U @ A @ T.conj().T), U @ b
        if name == "L2[A]":
            ds = [None, "numpy", "scipy", "factorize"][int(rng.integers(0, 4))]
            return n, T, lambda: P.L2(Op=gen.dense(A), b=b, sigma=sg, densesolver=ds), lambda: P.L2(Op=gen.dense(A2), b=b2, sigma=sg, densesolver=ds)
        kw = dict(solver="cgls", kwargs_solver=dict(tol=1e-26), niter=6 * n + 20, warm=bool(rng.random() < .5), sigma=sg)
        return n, T, lambda: P.L2(Op=gen.free(A), b=b, **kw), lambda: P.L2(Op=gen.free(A2), b=b2, **kw)
    if name in ("L21", "L21_plus_L1"):
        nd, k = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        n = nd * k
        if name == "L21":
            # any unitary map of a group, any order of the groups
            I = np.arange(n).reshape(nd, k)
            M = np.zeros((n, n), complex)
            p = rng.permutation(k)
            for j in range(k):
                M[np.ix_(I[:, j], I[:, p[j]])] = t_unit(rng, nd)
            return n, M, lambda: P.L21(ndim=nd, sigma=sg), None
        rho = float(rng.choice([0., .2, .7, 1.]))
        if rng.random() < .5:
            return n, t_phase(rng, n), lambda: Reshaped(P.L21_plus_L1(sigma=sg, rho=rho), (nd, k)), None
        return nd, t_entry(rng, nd), lambda: P.L21_plus_L1(sigma=sg, rho=rho), None
    if name == "Huber":
        return n, t_entry(rng, n), lambda: P.Huber(alpha=sg), None
    if name == "HuberCircular":
        return n, t_unit(rng, n), lambda: P.HuberCircular(alpha=sg), None
    if name == "Euclidean":
        return n, t_unit(rng, n), lambda: P.Euclidean(sigma=sg), None
    if name == "EuclideanBall":
        T, c = t_unit(rng, n), c_vec(rng, n)
        r = float(rng.choice([.5, 1., 3.]))
        return n, T, lambda: P.EuclideanBall(c, r), lambda: P.EuclideanBall(T @ c, r)
    if name == "L1Ball":
        r = float(rng.choice([.3, 1., 4.]))
        return n, t_entry(rng, n), lambda: P.L1Ball(n, r, maxiter=300, xtol=1e-13), None
    if name == "L0Ball":
        k = int(rng.integers(0, n + 1))
        return n, t_entry(rng, n), lambda: P.L0Ball(k), None
    if name == "L10Ball":
        nd, k = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        r = int(rng.integers(0, k + 1))
        return nd * k, t_phase(rng, nd * k), lambda: P.L10Ball(nd, r), None
    if name in ("Nuclear", "Nuclear[w]", "NuclearBall", "SVP", "SVP[log]", "SVP[geman]"):
        dim = (int(rng.integers(1, 5)), int(rng.integers(1, 5)))
        U, V = t_unit(rng, dim[0]), t_unit(rng, dim[1])
        T = np.kron(U, V)
        if name == "Nuclear":
            return dim[0] * dim[1], T, lambda: P.Nuclear(dim, sigma=sg), None
        if name == "Nuclear[w]":
            w = np.sort(rng.random(min(dim) + 1) * 2)
            return dim[0] * dim[1], T, lambda: P.Nuclear(dim, sigma=w), None
        if name == "NuclearBall":
            return dim[0] * dim[1], T, lambda: P.NuclearBall(dim, 1., maxiter=300, xtol=1e-13), None
        if name == "SVP":
            return dim[0] * dim[1], T, lambda: P.SingularValuePenalty(dim, P.ETP(sg, 1.)), None
        if name == "SVP[geman]":
            return dim[0] * dim[1], T, lambda: P.SingularValuePenalty(dim, P.Geman(sg, .7)), None
        return dim[0] * dim[1], T, lambda: P.SingularValuePenalty(dim, P.Log(sg, 1.3)), None
    if name == "ETP":
        g = gen.logu(rng, .3, 3)
        return n, t_entry(rng, n), lambda: P.ETP(sg, g), None
    if name == "Geman":
        g = gen.logu(rng, .3, 3)
        return n, t_entry(rng, n), lambda: P.Geman(sg, g), None
    if name == "Log":
        g = gen.logu(rng, .3, 3)
        return n, t_entry(rng, n), lambda: P.Log(sg, g), None
    if name == "Log1":
        return n, t_entry(rng, n), lambda: P.Log1(sg, 1e-2), None
    if name == "SCAD":
        a = 2.1 + 3 * rng.random()
        return n, t_entry(rng, n), lambda: P.SCAD(sg, a), None
    if name == "QECard":
        return n, t_entry(rng, n), lambda: P.QuadraticEnvelopeCard(sg), None
    if name == "QECardInd":
        r = int(rng.integers(1, n + 1))
        return n, t_entry(rng, n), lambda: P.QuadraticEnvelopeCardIndicator(r), None
    if name == "RelaxedMS":
        k = gen.logu(rng, .5, 4)
        return n, t_entry(rng, n), lambda: P.RelaxedMumfordShah(sigma=sg, kappa=k), None
    if name == "Affine":
        n = n + 1
        T, k = t_unit(rng, n), int(rng.integers(1, n))
        A = gen.mat(rng, k, n, True, cond=3.)
        b = A @ c_vec(rng, n)
        A2 = np.ascontiguousarray(A @ T.conj().T)
        return n, T, lambda: P.AffineSet(gen.dense(A), b, 20 * n), lambda: P.AffineSet(gen.dense(A2), b, 20 * n)
    if name == "Orthogonal":
        T = t_unit(rng, n)
        Q, b = t_unit(rng, n), c_vec(rng, n)
        Q2 = np.ascontiguousarray(Q @ T.conj().T)
        mk = lambda M: P.Orthogonal(P.L1(sigma=sg), gen.dense(M), b=b)
        return n, T, lambda: mk(Q), lambda: mk(Q2)
    if name == "VStack":
        k = int(rng.integers(1, 6))
        T = np.zeros((n + k, n + k), complex)
        T[:n, :n], T[n:, n:] = t_entry(rng, n), t_unit(rng, k)
        return n + k, T, lambda: P.VStack([P.L1(sigma=sg), P.Euclidean(sigma=1.)], nn=[n, k]), None
    if name == "sum":
        b = c_vec(rng, n)
        T = t_entry(rng, n)
        return n, T, lambda: P.Sum([P.L2(b=b, sigma=.7), P.L1(sigma=sg)], niter=60, tol=0.), \
            lambda: P.Sum([P.L2(b=T @ b, sigma=.7), P.L1(sigma=sg)], niter=60, tol=0.)
    if name == "precomposition":
        b, a = c_vec(rng, n), float(rng.choice([-2., .5, 3.]))
        T = t_entry(rng, n)
        return n, T, lambda: P.L1(sigma=sg).precomposition(a, b), lambda: P.L1(sigma=sg).precomposition(a, T @ b)
    if name == "chain":
        T = t_unit(rng, n)
        return n, T, lambda: P.Euclidean(sigma=sg).chain(P.HuberCircular(alpha=1.)), None
    if name == "affine_addition":
        T, v = t_entry(rng, n), c_vec(rng, n)
        return n, T, lambda: P.L1(sigma=sg) + v, lambda: P.L1(sigma=sg) + T @ v
    if name == "postcomposition":
        return n, t_entry(rng, n), lambda: P.L1(sigma=sg).postcomposition(sg), None
    raise KeyError(name)


class Reshaped:
    """An operator on matrices, seen as one on vectors."""

    def __init__(self, op, shape):
        self.op, self.shape, self.hasgrad = op, shape, False

    def __call__(self, x):
        return self.op(x.reshape(self.shape))

    def prox(self, x, t):
        return self.op.prox(x.reshape(self.shape), t).ravel()

    def proxdual(self, x, t):
        return self.op.proxdual(x.reshape(self.shape), t).ravel()


FAMS = ["L1", "L1[g]", "L0", "L2", "L2[b]", "L2[bq]", "Quadratic", "linear", "L2[A]", "L2[free]", "L21", "L21_plus_L1", "Huber", "HuberCircular", "Euclidean", "EuclideanBall", "L1Ball", "L0Ball", "L10Ball",
        "Nuclear", "Nuclear[w]", "NuclearBall", "SVP", "SVP[log]", "SVP[geman]", "ETP", "Geman", "Log", "Log1", "SCAD", "QECard", "QECardInd", "RelaxedMS", "Affine", "Orthogonal", "VStack", "sum",
        "precomposition", "affine_addition", "postcomposition"]
LOOSE = {"Affine": 1e-3, "L2[free]": 1e-5, "NuclearBall": 1e-6, "L1Ball": 1e-7}


def stable(rng, fn, x, p, tol=1e-6):
    """Is the answer continuous around x? Non-convex steps jump at their thresholds."""
    sc = max(1e-12, float(np.abs(x).max()))
    for k in range(10):
        d = rng.standard_normal(x.shape) * 1e-9 * sc if k > 1 else x * (1e-9 if k else -1e-9)
        if np.iscomplexobj(x) and k > 1:
            d = d * np.exp(2j * np.pi * rng.random(x.shape))
        q = np.asarray(fn(x + d))
        if q.shape != p.shape or np.abs(q - p).max() > tol * sc:
            return False
    return True


def symmetries(m):
    rng = m.rng
    nm = FAMS[m.index % len(FAMS)]
    n, T, mk, mkT = fam(rng, nm)
    a, b = mk(), (mkT or mk)()
    tau = gen.logu(rng, .05, 20)
    x = c_vec(rng, n)
    if rng.random() < .25:
        x = x * (rng.random(n) < .5)
    if rng.random() < .15 and nm != "L2[free]":       # conjugate gradients run past convergence wander off with the scale
        x = x * gen.logu(rng, 1e-3, 1e3)
    y = T @ x
    m.describe(family=nm, tau=tau, x=x)
    tol = max(1e-9, LOOSE.get(nm, 0)) * (1 + float(np.abs(x).max())) * (1 + n / 4)
    fresh = lambda f, *ar: np.asarray(f(*[np.array(v, copy=True) for v in ar], tau))
    p, q = fresh(a.prox, x), fresh(b.prox, y)
    m.event("family:" + nm)
    if not m.ok(p.shape == x.shape and q.shape == x.shape, "shape kept", family=nm):
        return
    if stable(rng, lambda v: mk().prox(v, tau), x, p):
        m.close(q, T @ p, "the proximal step moves with the input", tol, family=nm, tau=tau, x=x)
        m.event("steps compared")
    else:
        m.event("at a jump: not compared")
        return
    dt = tol * (1 + 1 / tau)
    p2, q2 = np.asarray(a.proxdual(x / tau, 1 / tau)), np.asarray(b.proxdual(y / tau, 1 / tau))
    m.close(q2, T @ p2, "the dual step moves with the input", 4 * dt, family=nm, tau=tau, x=x)
    va, vb = a(x), b(y)
    if isinstance(va, (bool, np.bool_)) or nm in ("Affine", "EuclideanBall", "NuclearBall", "L1Ball"):
        m.event("memberships")
        pa, pb = a(p * .999), b(q * .999)
        if nm in ("L1Ball", "NuclearBall"):
            m.ok(bool(pa) == bool(pb) and bool(pa), "membership does not depend on phases", family=nm, a=pa, b=pb)
    elif nm not in ("sum",):
        m.close(float(vb), float(va), "the value does not depend on phases", 1e-9 * (1 + abs(float(va))) * (1 + n / 4), family=nm, x=x)
    if getattr(a, "hasgrad", False) and nm != "sum" and not (nm in ("Euclidean", "VStack") and np.any(x == 0)):
        try:
            ga, gb = np.asarray(a.grad(x)), np.asarray(b.grad(y))
        except NotImplementedError:
            ga = None
        if ga is not None:
            m.close(gb, T @ ga, "the gradient moves with the input", 1e-8 * (1 + float(np.abs(ga).max())) * (1 + n / 4), family=nm, x=x)
            m.event("gradients compared")
    # conjugation is a symmetry of everything that only knows magnitudes
    if mkT is None:
        qc = fresh(mk().prox, x.conj())
        m.close(qc, p.conj(), "conjugating the input conjugates the step", tol, family=nm, tau=tau, x=x)
    if np.abs(p - x).max() > 1e-9 and np.abs(p).max() > 1e-9:
        m.nontrivial(nm, x.tobytes(), tau)


def embedding(m):
    """Real input with a complex type; the same answer, without imaginary part."""
    rng = m.rng
    tab = {k: v for k, v in C.ALL.items() if k in C.COMPLEX_OK}
    s = C.pick(m, tab, 0.)
    tau = gen.logu(rng, .05, 10)
    x = s.draw(rng, tau, cplx=False, kind="normal" if rng.random() < .6 or not s.extreme else None)
    if np.iscomplexobj(x) or s.name.endswith(" restr]") or "cgls" in s.name:      # a real-typed pylops stack refuses complex data by itself
        return
    p = np.asarray(s.make().prox(x.copy(), tau))
    z = x.astype(complex)
    q = np.asarray(s.make().prox(z.copy(), tau))
    m.describe(spec=s.name, cfg=s.cfg, tau=tau, x=x)
    sc = s.scale(x, p)
    tol = (1e-9 + 2 * s.acc) * sc
    if not stable(rng, lambda v: s.make().prox(v, tau), x, p):
        m.event("at a jump: not compared")
        return
    m.close(q.real if np.iscomplexobj(q) else q, p, "a real input seen as complex gives the same step", tol, spec=s.name, cfg=s.cfg, tau=tau, x=x)
    if np.iscomplexobj(q):
        m.close(q.imag, np.zeros(x.shape), "a real input seen as complex gives a real step", tol, spec=s.name, cfg=s.cfg, tau=tau, x=x)
    a, b = np.asarray(s.make().proxdual(x / tau, 1 / tau)), np.asarray(s.make().proxdual(z / tau, 1 / tau))
    m.close(b, a.astype(complex) if np.iscomplexobj(b) else a, "a real input seen as complex gives the same dual step", 4 * tol * (1 + 1 / tau), spec=s.name, cfg=s.cfg, tau=tau, x=x)
    if s.value and not s.ind:
        va, vb = s.make()(x), s.make()(z)
        m.close(float(np.real(vb)), float(va), "a real input seen as complex has the same value", 1e-9 * (1 + abs(float(va))), spec=s.name, cfg=s.cfg, x=x)
        m.ok(abs(np.imag(vb)) <= 1e-12 * (1 + abs(float(va))), "values are real", got=vb, spec=s.name)
    if s.hasgrad and np.linalg.norm(x) > 1e-6 and "Euclidean" not in s.name:
        ga, gb = np.asarray(s.make().grad(x)), np.asarray(s.make().grad(z))
        m.close(gb, ga.astype(gb.dtype), "a real input seen as complex has the same gradient", 1e-9 * s.scale(ga) * x.size, spec=s.name, cfg=s.cfg, x=x)
    m.event("embeddings")
    if np.abs(p - x).max() > 1e-9 and np.abs(p).max() > 1e-9:
        m.nontrivial(s.name, x.tobytes(), tau)


def minimiser(m):
    """The complex answer minimises the same objective, now against complex competitors."""
    rng = m.rng
    tab = {k: v for k, v in {**C.CONVEX, **C.SETS, **C.NONCONVEX}.items() if k in C.COMPLEX_OK}
    s = C.pick(m, tab, 1.)
    tau = common.tau_for(rng, s)
    x = s.draw(rng, tau, kind=None if s.extreme else "normal")
    p = s.make().prox(x.copy(), tau)
    m.describe(spec=s.name, cfg=s.cfg, tau=tau, x=x)
    if s.cvx:
        common.check_prox(m, s, x, tau, p, "complex step")
    elif s.ind:
        d = float(np.linalg.norm(x - p))
        m.le(s.dist(p), 0, "complex step: lies in the set", common.tol_for(s, x, p), spec=s.name, x=x)
        if s.member is not None:
            for _ in range(8):
                q = np.asarray(s.member(rng)).reshape(x.shape)
                m.le(d, float(np.linalg.norm(x - q)), "complex step: no member is nearer", common.tol_for(s, x, p), spec=s.name, x=x, q=q)
    else:
        o = s.obj(p, x, tau)
        # phases never help: the competitors also turn the answer
        for q in common.competitors(rng, s, x, p, tau, 16) + [p * np.exp(1j * 1e-3), p * np.exp(-1j * 1e-2), np.conj(p)]:
            oq = s.obj(q, x, tau)
            slack = 1e-9 * (abs(o) + abs(oq)) + (1e-9 + s.acc) * s.scale(x, p) ** 2 * (1 + 1 / tau) * 1e-2
            m.le(o, oq, "complex step: no competitor has a lower objective", slack, spec=s.name, cfg=s.cfg, x=x, q=q, p=p, tau=tau)
    if np.iscomplexobj(p) and np.abs(p - x).max() > 0 and np.abs(p).max() > 0:
        m.nontrivial(s.name, x.tobytes(), tau)


def precision(m):
    """Single-precision input: the double-precision answer to single-precision accuracy."""
    rng = m.rng
    s = C.pick(m, C.ALL, .25)
    tau = gen.logu(rng, .1, 5)
    x = s.draw(rng, tau, kind="normal")
    if x.dtype.kind not in "fc":
        x = x.astype(float)
    xs = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
    xd = xs.astype(np.complex128 if np.iscomplexobj(x) else np.float64)
    m.describe(spec=s.name, cfg=s.cfg, tau=tau, x=xs)
    p = np.asarray(s.make().prox(xd.copy(), tau))
    keep = xs.copy()
    q = np.asarray(s.make().prox(xs, tau))
    m.ok(np.array_equal(xs, keep), "the input is left alone")
    sc = s.scale(x, p)
    tol = (3e-5 + 3 * s.acc) * sc * (1 + x.size / 8)

    def jumpy(fn, at, ref):
        d = 3e-6 * max(1e-3, float(np.abs(at).max()))
        for _ in range(3):
            e = rng.choice([-1., 1.], at.shape) * d * (np.exp(2j * np.pi * rng.random(at.shape)) if np.iscomplexobj(at) else 1)
            if np.abs(np.asarray(fn(at + e)) - ref).max() > 1e-3 * sc:
                return True
        return False
    if not s.cvx and jumpy(lambda v: s.make().prox(v, tau), xd, p):
        m.event("at a jump: not compared")
        return
    m.ok(q.dtype.kind == p.dtype.kind or q.dtype.kind in "fc", "floating-point result", dtype=str(q.dtype))
    m.close(q, p, "single precision: the step of the double-precision input", tol, spec=s.name, cfg=s.cfg, tau=tau, x=xs)
    a = np.asarray(s.make().proxdual(xd / tau, 1 / tau))
    b = np.asarray(s.make().proxdual((xs / np.float32(tau)).astype(xs.dtype), 1 / tau))
    m.close(b, a, "single precision: the dual step of the double-precision input", 4 * tol * (1 + 1 / tau), spec=s.name, cfg=s.cfg, tau=tau, x=xs)
    if s.value and not s.ind:
        va, vb = s.make()(xd), s.make()(xs)
        jump = not s.cvx and abs(float(s.make()(xd * (1 + 3e-6))) - float(va)) > 1e-3 * (1 + abs(float(va)))
        if not jump:
            m.close(float(np.real(vb)), float(np.real(va)), "single precision: the value of the double-precision input", 1e-4 * (abs(float(np.real(va))) + sc * sc * x.size), spec=s.name, cfg=s.cfg, x=xs)
    if s.hasgrad and not ("Euclidean" in s.name and np.linalg.norm(x) < 1e-2):
        ga, gb = np.asarray(s.make().grad(xd)), np.asarray(s.make().grad(xs))
        m.close(gb, ga, "single precision: the gradient of the double-precision input", 1e-4 * s.scale(ga, x) * (1 + x.size), spec=s.name, cfg=s.cfg, x=xs)
    m.event("precisions compared")
    if np.abs(p - x).max() > 1e-6 and np.abs(p).max() > 1e-6:
        m.nontrivial(s.name, xs.tobytes(), tau)


# ------------------------------------------------------------------------------- solvers
SOLV = ("PP", "PG", "PGfista", "PGback", "Anderson", "GPG", "HQS", "ADMM", "ADMML2", "LinADMM", "DRS", "PPXA", "Consensus", "PD", "APD", "PALM", "iPALM", "Bregman", "TwIST", "SR3", "PnP")


def problem(rng, which, cplx):
    n, k, r = int(rng.integers(2, 6)), int(rng.integers(2, 8)), int(rng.integers(1, 5))
    if which == "TwIST":
        n, k = 4 + n, 6 + n
    A = gen.mat(rng, max(k, n) if which == "TwIST" else k, n, cplx)
    A = A / np.linalg.norm(A, 2)
    b = gen.vec(rng, A.shape[0], 1., None, cplx, "normal")
    K = gen.mat(rng, r, n, cplx)
    K = K / np.linalg.norm(K, 2)
    x0 = gen.vec(rng, n, 1., None, cplx, "normal") * rng.choice([0., 1.])
    return dict(A=A, b=b, K=K, x0=x0, n=n, sg=gen.logu(rng, .02, .5), u=rng.random() * .8 + .1, g=int(rng.integers(0, 3)), z=bool(rng.random() < .5), first=bool(rng.random() < .5))


def run(which, d, niter):
    """Every solver of the library on a least-squares term with data (A, b), a magnitude-based term and a start."""
    P = C.P()
    O_ = P.optimization
    pr, pd_, pm = O_.primal, O_.primaldual, O_.palm
    A, b, K, x0, sg = d["A"], d["b"], d["K"], d["x0"].copy(), d["sg"]
    f = lambda: P.L2(Op=gen.dense(A), b=b)
    g = lambda: [P.L1(sigma=sg), P.Euclidean(sigma=sg), P.Huber(alpha=max(sg, .1))][d["g"]]
    out = []
    cb = lambda x, *a: out.append(np.array(x, copy=True))
    kw = dict(niter=niter, callback=cb)
    t = d["u"]
    if which == "PP":
        r = pr.ProximalPoint(g(), x0, t, **kw)
    elif which == "PG":
        r = pr.ProximalGradient(f(), g(), x0, tau=t, **kw)
    elif which == "PGfista":
        r = pr.ProximalGradient(f(), g(), x0, tau=t, acceleration=["fista", "vandenberghe"][d["first"]], **kw)
    elif which == "PGback":
        r = pr.ProximalGradient(f(), g(), x0, tau=1., backtracking=True, **kw)
    elif which == "Anderson":
        r = pr.AndersonProximalGradient(f(), g(), x0, tau=t, nhistory=3, epsr=1e-6, safeguard=True, **kw)
    elif which == "GPG":
        r = pr.GeneralizedProximalGradient([f(), P.L2(b=K.conj().T @ np.ones(K.shape[0], K.dtype), sigma=.3)], [g(), P.Euclidean(sigma=sg)], x0, t / 2, **kw)
    elif which == "HQS":
        r = pr.HQS(f(), g(), x0, t, gfirst=d["first"], **kw)
    elif which == "ADMM":
        r = pr.ADMM(f(), g(), x0, t, gfirst=d["first"], **kw)
    elif which == "ADMML2":
        r = pr.ADMML2(g(), gen.dense(A), b, gen.dense(K), x0, t, iter_lim=60, atol=1e-13, btol=1e-13, **kw)
    elif which == "LinADMM":
        r = pr.LinearizedADMM(P.L2(b=x0 * 0 + A.conj().T @ b), g(), gen.dense(K), x0, t, t * .9, **kw)
    elif which == "DRS":
        r = pr.DouglasRachfordSplitting(f(), g(), x0, t, eta=1.2, gfirst=d["first"], **kw)
    elif which == "PPXA":
        r = pr.PPXA([f(), g(), P.Euclidean(sigma=sg)], x0, t, tol=0, **kw)
    elif which == "Consensus":
        r = pr.ConsensusADMM([f(), g(), P.Euclidean(sigma=sg)], x0, t, tol=0, **kw)
    elif which == "PD":
        r = pd_.PrimalDual(f(), g(), gen.dense(K), x0, t, .9, z=K.conj().T @ np.ones(K.shape[0], K.dtype) * .1 if d["z"] else None, gfirst=d["first"], **kw)
    elif which == "APD":
        r = pd_.AdaptivePrimalDual(f(), g(), gen.dense(K), x0, t, .9, tol=-1., **kw)[0]
    elif which in ("PALM", "iPALM"):
        # one bilinear term on the outer product of two vectors
        from pyproximal.utils.bilinear import LowRankFactorizedMatrix
        n = d["n"]
        X0 = (A.conj().T @ b + .5)
        Y0 = np.conj(K[0]) + 0 * b[0]
        M = np.outer(A.conj().T @ b, K[0]).ravel()
        H = LowRankFactorizedMatrix(X0.reshape(n, 1).copy(), Y0.reshape(1, -1).copy(), M)
        r = (pm.PALM if which == "PALM" else pm.iPALM)(H, g(), P.L2(sigma=.1), X0.copy(), Y0.copy(), gammaf=1.5, gammag=1.5, niter=niter, callback=lambda x, y: out.append(np.concatenate([x, y])))
        r = np.concatenate(r)
    elif which == "Bregman":
        r = O_.bregman.Bregman(f(), g(), x0, pr.ProximalGradient, alpha=.7, niterouter=3, tolx=-1, tolf=-1, tau=t, niter=niter, bregcallback=cb)
    elif which == "TwIST":
        r = pr.TwIST(g(), gen.dense(A), b, x0, eigs=(.05, 1.), niter=niter, callback=cb)
    elif which == "SR3":
        r = O_.sr3.SR3(gen.dense(A), gen.dense(K), b, .5, .2, adaptive=False, iter_lim_outer=niter, iter_lim_inner=40)
    elif which == "PnP":
        den = lambda v, s: v * (.5 + .4 * np.abs(v).max() / (1 + np.abs(v).max()))
        r = O_.pnp.PlugAndPlay(f(), den, x0.shape, x0, solver=pr.ADMM, tau=t, niter=niter)
    if isinstance(r, tuple):
        r = r[0]
    return out + [np.asarray(r)]


def solvers(m):
    try:
        _solvers(m)
    except ZeroDivisionError as e:          # a factor of the bilinear model vanished
        if "palm.py" not in traceback.format_exc():
            raise
        m.event("degenerate factor")


def _solvers(m):
    rng = m.rng
    which = SOLV[m.index % len(SOLV)]
    niter = int(rng.choice([1, 2, 5, 15]))
    test = ("phase", "real", "single", "conj")[(m.index // len(SOLV)) % 4]
    d = problem(rng, which, test in ("phase", "conj"))
    if which == "SR3" and test in ("phase", "conj"):
        test = "single"
        d = problem(rng, which, False)
    if which in ("SR3",) and test == "real":
        return
    if which == "PGback" and test == "single":      # the line search compares near-equal values: any rounding may flip it
        niter = min(niter, 2)
    m.describe(solver=which, test=test, niter=niter, **{k: d[k] for k in ("n", "sg", "u", "g", "first")})
    base = run(which, d, niter)
    # how much the run itself amplifies rounding: the same run from perturbed data
    e = dict(d)
    pert = 1e-10 if test != "single" else 1e-6
    for k in ("A", "b", "x0", "K"):
        v = d[k]
        e[k] = v * (1 + pert * rng.standard_normal(v.shape)) + pert * rng.standard_normal(v.shape) * (0 if k == "x0" and not np.any(v) else 1)
    other = run(which, e, niter)
    if len(other) != len(base):
        m.event("run too sensitive")
        return
    amp = max(float(np.abs(u - v).max()) for u, v in zip(base, other))
    sc = 1 + max(float(np.abs(v).max()) for v in base)
    if amp > (1e-6 if test != "single" else 1e-3) * sc:
        m.event("run too sensitive")
        return
    tol = (1e-7 if test != "single" else 2e-4) * sc + 50 * amp
    if which in ("ADMML2", "SR3"):
        tol += 2e-5 * sc if test != "single" else 5e-3 * sc
    if test == "phase":
        common_phase = which in ("PALM", "iPALM", "GPG", "Bregman") or rng.random() < .3 or (which == "PD" and d["z"])
        D = np.full(d["n"], np.exp(2j * np.pi * rng.random())) if common_phase else phases(rng, d["n"])
        if which in ("PALM", "iPALM"):
            e = dict(d, b=d["b"] * D[0])
            # X0 = A^H b + 1/2 does not rotate: use the conjugation test there instead
            test = "conj"
        elif which in ("GPG", "PD", "LinADMM"):
            e = dict(d, A=d["A"] * D.conj(), K=d["K"] * D.conj(), x0=d["x0"] * D)
        else:
            e = dict(d, A=d["A"] * D.conj(), K=d["K"] * D.conj(), x0=d["x0"] * D)
        mp = lambda v: v * D
    if test == "conj":
        e = dict(d, **{k: d[k].conj() for k in ("A", "b", "K", "x0")})
        mp = np.conj
    elif test == "real":
        e = dict(d, **{k: d[k].astype(complex) for k in ("A", "b", "K", "x0")})
        if rng.random() < .3:
            e["x0"] = d["x0"]
        mp = lambda v: v
    elif test == "single":
        c = np.complex64 if np.iscomplexobj(d["A"]) else np.float32
        e = dict(d, **{k: d[k].astype(c) for k in ("A", "b", "K", "x0")})
        mp = lambda v: v
    got = run(which, e, niter)
    if not m.ok(len(got) == len(base), "as many iterates", solver=which, test=test, got=len(got), want=len(base)):
        return
    names = dict(phase="rotated data and start give rotated iterates", conj="conjugated data and start give conjugated iterates", real="real data seen as complex give the same iterates", single="single-precision data give the same iterates to single precision")
    for i, (u, v) in enumerate(zip(got, base)):
        if not m.close(u, mp(v), names[test], tol, solver=which, iterate=i + 1, of=len(base), niter=niter):
            break
    m.event(f"{test}: iterates", len(base))
    if niter > 1 and np.abs(base[0] - base[-1]).max() > 1e-6:
        m.nontrivial(which, test, d["A"].tobytes())


def watched(fn):
    """NumPy warns when an imaginary part is dropped in a conversion: under watch that is a violation."""
    def group(m):
        with warnings.catch_warnings():
            warnings.filterwarnings("error", category=np.exceptions.ComplexWarning)
            fn(m)
        m.event("cases watched for dropped imaginary parts")
    group.__name__ = fn.__name__
    return group


symmetries, embedding, minimiser, precision, solvers = map(watched, (symmetries, embedding, minimiser, precision, solvers))
GROUPS = [("symmetries", symmetries, 7200, 40000), ("embedding", embedding, 2800, 16000), ("minimiser", minimiser, 2500, 16000), ("precision", precision, 3300, 20000), ("solvers", solvers, 2100, 12000)]
