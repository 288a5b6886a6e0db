"""P29: documented rejections raise the documented error before any work; their valid neighbours are accepted."""
import numpy as np

import catalog as C
import gen
import solvers as S
import wraps as W
import zoo as Z

PROP = "P29"
RULE = ("one case = one documented rejection rule with freshly drawn surroundings: the invalid request must raise the documented exception without calling any user operator, the neighbours "
        "just inside the domain must be accepted and answer with finite arrays; non-trivial when both sides were executed")


def P():
    return C.P()


def O():
    return S.O()


class Spy:
    """Functional 'sigma |x|_1' with smooth-like gradient access that counts its calls."""

    def __init__(self, n, log, cplx=False):
        import pyproximal
        outer = log

        class F(pyproximal.ProxOperator):
            def __init__(self):
                super().__init__(None, True)

            def __call__(self, x):
                outer.append("value")
                return float(.5 * np.sum(np.abs(x) ** 2))

            def prox(self, x, tau):
                outer.append("prox")
                return x / (1 + tau)

            def proxdual(self, x, tau):
                outer.append("dual")
                return x / (1 + tau)

            def grad(self, x):
                outer.append("grad")
                return x
        self.op = F()


def spy(log):
    return Spy(0, log).op


class SpyOp:
    """Identity-like pylops operator counting applications."""

    def __new__(cls, n, log):
        from pylops import LinearOperator

        class A(LinearOperator):
            def __init__(self):
                super().__init__(dtype="float64", shape=(n, n))

            def _matvec(self, x):
                log.append("matvec")
                return 1. * x

            def _rmatvec(self, x):
                log.append("rmatvec")
                return 1. * x
        return A()


BADNAME = ("FISTA", "Fista", "none", "nesterov", "", "vandenberg", "fista ", "Vandenberghe", 0, 1, True, "anderson")


def r_starts(rng, log):
    n = int(rng.integers(1, 7))
    x = rng.standard_normal(n)
    f, g, I = spy(log), spy(log), SpyOp(n, log)
    k = int(rng.integers(1, 6))
    L2 = lambda: P().L2(b=rng.standard_normal(n))
    w = rng.integers(0, 4)
    cb = lambda *a: log.append("callback")
    if w == 0:
        nm, fn, two = "ADMM", lambda **kw: O().primal.ADMM(f, g, tau=.5, niter=k, callback=cb, **kw), True
    elif w == 1:
        nm, fn, two = "HQS", lambda **kw: O().primal.HQS(f, g, tau=.5, niter=k, callback=cb, **kw), True
    elif w == 2:
        nm, fn, two = "LinearizedADMM", lambda **kw: O().primal.LinearizedADMM(f, g, I, tau=.5, mu=.5, niter=k, callback=cb, **kw), False
    else:
        b = rng.standard_normal(n)
        nm, fn, two = "ADMML2", lambda **kw: O().primal.ADMML2(g, I, b, I, tau=.5, niter=k, callback=cb, **kw), False
    bad = [("no start", ValueError, lambda: fn(x0=None))]
    bad.append(("no start", ValueError, lambda: fn(x0=None, z0=None)))
    good = [("x0 only", lambda: fn(x0=x.copy())), ("both starts", lambda: fn(x0=x.copy(), z0=x + 1)), ("z0 None", lambda: fn(x0=x.copy(), z0=None))]
    if two:
        good.append(("z0 only", lambda: fn(x0=None, z0=x.copy())))
    else:
        bad.append(("z0 without x0", ValueError, lambda: fn(x0=None, z0=x.copy())))
    return nm + ": starting points", bad, good


def r_accel(rng, log):
    n = int(rng.integers(1, 7))
    x = rng.standard_normal(n)
    k = int(rng.integers(1, 6))
    f, g = spy(log), spy(log)
    m = int(rng.integers(1, 4))
    cb = lambda *a: log.append("callback")
    if rng.random() < .5:
        nm, fn = "ProximalGradient", lambda a: O().primal.ProximalGradient(f, g, x.copy(), tau=.5, niter=k, acceleration=a, callback=cb)
    else:
        nm, fn = "GeneralizedProximalGradient", lambda a: O().primal.GeneralizedProximalGradient([f] * m, [g] * m, x.copy(), tau=.3, niter=k, acceleration=a, callback=cb)
    v = BADNAME[int(rng.integers(0, len(BADNAME)))]
    return nm + ": acceleration", [(repr(v), NotImplementedError, lambda: fn(v))], [(repr(a), lambda a=a: fn(a)) for a in (None, "None", "vandenberghe", "fista")]


def r_weights(rng, log):
    n = int(rng.integers(1, 5))
    x = rng.standard_normal(n)
    m = int(rng.integers(1, 60)) if rng.random() < .7 else int(rng.integers(1, 8))
    fs, gs = [spy(log)], [spy(log) for _ in range(m)]
    fn = lambda w: O().primal.GeneralizedProximalGradient(fs, gs, x.copy(), tau=.5, niter=2, weights=w, callback=lambda v: log.append("cb"))
    w = rng.dirichlet(np.ones(m)) * .8 + .2 / m
    w[-1] = 1 - w[:-1].sum()
    bad = [("short", ValueError, lambda: fn(np.ones(m + 1) / (m + 1))), ("long", ValueError, lambda: fn(np.ones(max(m - 1, 2 if m == 1 else 1)) / max(m - 1, 2 if m == 1 else 1))) if m != 2 else ("long", ValueError, lambda: fn(np.ones(1))),
           ("sum", ValueError, lambda: fn(w * 1.01)), ("sum", ValueError, lambda: fn(w * .9)), ("ones", ValueError, lambda: fn(np.ones(m) * (2 if m == 1 else 1))), ("empty", ValueError, lambda: fn(np.zeros(0)))]
    good = [("default", lambda: fn(None)), ("equal", lambda: fn(np.ones(m) / m)), ("drawn", lambda: fn(w)), ("rounding", lambda: fn(w * (1 + 1e-12))), ("sums", lambda: fn(np.full(m, 1. / m)))]
    return "GeneralizedProximalGradient: weights", bad, good


def r_sum(rng, log):
    n = int(rng.integers(1, 6))
    x = rng.standard_normal(n)
    m = int(rng.integers(1, 5))
    par, orig = bool(rng.random() < .5), bool(rng.random() < .5)
    kw = dict(use_parallel=par)
    w = rng.integers(0, 3)
    box = lambda v: np.clip(v, -1, 1)
    if w == 0:
        ops = [spy(log) for _ in range(m)]
        return "Sum: number of terms", [("empty", ValueError, lambda: P().Sum([], **kw))], [(f"{m} terms", lambda: P().Sum(ops, use_original_tau=orig, niter=20, **kw).prox(x.copy(), .7)), ("weights", lambda: P().Sum(ops, weights=[1. / m] * m, niter=20, **kw).prox(x.copy(), .7))]
    if w == 1:
        from pyproximal.projection import GenericIntersectionProj as G
        return "GenericIntersectionProj: number of sets", [("empty", ValueError, lambda: G([], **kw))], [(f"{m} sets", lambda: G([box] * m, niter=30, **kw)(x.copy()))]
    return "GenericIntersectionProx: number of sets", [("empty", ValueError, lambda: P().GenericIntersectionProx([], **kw))], [(f"{m} sets", lambda: P().GenericIntersectionProx([box] * m, niter=30, **kw).prox(x.copy(), .7))]


def r_simplex(rng, log):
    a, b = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    x = rng.standard_normal(a * b)
    ax = int(rng.choice([0, 1, -1]))
    n = (a, b)[ax]
    S_ = P().Simplex
    bad = [("engine", KeyError, lambda: S_(a * b, 1., engine=str(rng.choice(["jax", "NumPy", "", "cupy", "Numba"])))),
           ("one extent", ValueError, lambda: S_(n, 1., dims=(a * b,), axis=ax)), ("three extents", ValueError, lambda: S_(n, 1., dims=(a, b, 1), axis=ax)), ("no extents", ValueError, lambda: S_(n, 1., dims=())),
           ("engine and extents", (KeyError, ValueError), lambda: S_(n, 1., dims=(a,), engine="nope")), ("numba extents", ValueError, lambda: S_(n, 1., dims=(a, b, 2), engine="numba"))]
    good = [("1-D", lambda: S_(a * b, 1.).prox(x.copy(), 1.)), ("numpy", lambda: S_(a * b, 1., engine="numpy").prox(x.copy(), 1.)), ("2-D", lambda: S_(n, 1., dims=(a, b), axis=ax).prox(x.copy(), 1.)),
            ("list", lambda: S_(n, 1., dims=[a, b], axis=ax).prox(x.copy(), 1.)), ("numba", lambda: S_(a * b, 1., engine="numba").prox(x.copy(), 1.)),
            ("numba 2-D", lambda: S_(n, 1., dims=(a, b), axis=ax, engine="numba").prox(x.copy(), 1.))]
    return "Simplex: engine and extents", bad, good


def r_vstack(rng, log):
    m = int(rng.integers(1, 5))
    nn = [int(v) for v in rng.integers(1, 5, m)]
    N = sum(nn)
    ops = [spy(log) for _ in range(m)]
    mk = lambda: P().VStack(ops, nn=list(nn))
    if rng.random() < .4:
        from pylops import Restriction
        perm = rng.permutation(N)
        cut = np.cumsum(nn)[:-1]
        rs = [Restriction(N, np.sort(q)) for q in np.split(perm, cut)]
        mk = lambda: P().VStack(ops, restr=rs)
    v = mk()
    k = int(rng.choice([q for q in (0, 1, N - 1, N + 1, 2 * N, N + 3) if q != N and q >= 0]))
    x = rng.standard_normal(k)
    y = rng.standard_normal(N)
    bad = [("neither sizes nor restrictions", ValueError, lambda: P().VStack(ops)), ("neither", ValueError, lambda: P().VStack(ops, nn=None, restr=None))]
    bad += [(f"size {k} for {N}: {w}", ValueError, f) for w, f in (("value", lambda: v(x)), ("prox", lambda: v.prox(x, .5)), ("dual", lambda: v.proxdual(x, .5)), ("grad", lambda: v.grad(x)))]
    good = [("value", lambda: np.array(v(y))), ("prox", lambda: v.prox(y.copy(), .5)), ("dual", lambda: v.proxdual(y.copy(), .5)), ("grad", lambda: v.grad(y.copy())), ("array of sizes", lambda: P().VStack(ops, nn=np.array(nn)).prox(y.copy(), .5)), ("tuple of sizes", lambda: P().VStack(ops, nn=tuple(nn)).prox(y.copy(), .5))]
    return "VStack: sizes", bad, good


def r_quadratic(rng, log):
    n = int(rng.integers(1, 6))
    m = n + int(rng.choice([-1, 1, 3])) if n > 1 else n + 1
    A = gen.spd(rng, n)
    x = rng.standard_normal(n)
    B = rng.standard_normal((m, n))
    w = gen.dense if rng.random() < .5 else gen.free
    bad = [("rectangular", ValueError, lambda: P().Quadratic(Op=w(B), b=np.zeros(n))), ("rectangular", ValueError, lambda: P().Quadratic(Op=w(B.T.copy()), b=np.zeros(m), c=1.))]
    good = [("square", lambda: P().Quadratic(Op=w(A), b=x, c=1., niter=20).prox(x.copy(), .7)), ("no operator", lambda: P().Quadratic(b=x).prox(x.copy(), .7)), ("constant", lambda: P().Quadratic(c=2.).prox(x.copy(), .7)), ("square grad", lambda: P().Quadratic(Op=w(A), b=x).grad(x.copy()))]
    return "Quadratic: square operator", bad, good


def r_l2(rng, log):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    A = rng.standard_normal((m, n))
    b, x = rng.standard_normal(m), rng.standard_normal(n)
    name = rng.choice(["lsqr", "CG", "", "Legacy", "cglss", "none"])
    wr = gen.free if rng.random() < .7 else gen.dense
    bad = [("solver", ValueError, lambda: P().L2(Op=wr(A), b=b, solver=str(name))), ("solver without operator", ValueError, lambda: P().L2(b=b, solver=str(name))), ("solver None", ValueError, lambda: P().L2(Op=wr(A), b=b, solver=None))]
    good = [(s, lambda s=s: P().L2(Op=wr(A), b=b, solver=s, niter=5).prox(x.copy(), .5)) for s in ("legacy", "cg", "cgls")]
    good += [(str(d), lambda d=d: P().L2(Op=gen.dense(A), b=b, densesolver=d).prox(x.copy(), .5)) for d in (None, "numpy", "scipy", "factorize")]
    return "L2: solver", bad, good


def r_penalty(rng, log):
    x = rng.standard_normal(int(rng.integers(1, 6))) * 2
    neg = -gen.logu(rng, 1e-8, 10)
    pos = gen.logu(rng, 1e-3, 10)
    p2 = gen.logu(rng, 1e-2, 10)
    w = rng.integers(0, 5)
    t = gen.logu(rng, .05, 5)
    if w < 3:
        nm, K = [("Log", P().Log), ("Geman", P().Geman), ("ETP", P().ETP)][w]
        bad = [("negative sigma", ValueError, lambda: K(neg, pos)), ("negative gamma", ValueError, lambda: K(pos, neg)), ("zero gamma", ValueError, lambda: K(pos, 0.)), ("both", ValueError, lambda: K(neg, neg))]
        good = [("inside", lambda: K(pos, p2).prox(x.copy(), t)), ("zero sigma", lambda: K(0., p2).prox(x.copy(), t)), ("default gamma", lambda: K(pos).prox(x.copy(), t)), ("small gamma", lambda: K(pos, 1e-2).prox(x.copy(), t)), ("integers", lambda: K(1, 2).prox(x.copy(), t))]
    elif w == 3:
        nm, K = "SCAD", P().SCAD
        bad = [("negative sigma", ValueError, lambda: K(neg, 3.7)), ("zero sigma", ValueError, lambda: K(0., 3.7)), ("a=2", ValueError, lambda: K(pos, 2.)), ("a<2", ValueError, lambda: K(pos, 2. - p2)), ("a int 2", ValueError, lambda: K(pos, 2))]
        good = [("inside", lambda: K(pos, 2. + p2).prox(x.copy(), min(t, .5))), ("default a", lambda: K(pos).prox(x.copy(), min(t, .5))), ("just above two", lambda: K(pos, 2.0001).prox(x.copy(), min(t, .5)))]
    else:
        nm, K = "Log1", P().Log1
        bad = [("negative delta", ValueError, lambda: K(pos, neg))]
        good = [("inside", lambda: K(pos, p2).prox(x.copy(), t)), ("default delta", lambda: K(pos).prox(x.copy(), t)), ("zero delta", lambda: K(pos, 0.).prox(x.copy(), t))]
    return nm + ": parameters", bad, good


def r_derived(rng, log):
    n = int(rng.integers(1, 6))
    x = rng.standard_normal(n)
    f = spy(log)
    v = rng.standard_normal(n)
    junk = lambda: [1, 2., None, "a", [1., 2.], (1.,), {}, f][int(rng.integers(0, 8))]
    j1, j2, j3 = junk(), junk(), junk()
    if isinstance(j2, float):
        j2 = 3
    if isinstance(j3, float):
        j3 = 3
    NI = NotImplementedError
    bad = [("plus " + type(j1).__name__, NI, lambda: f + j1), ("affine_addition " + type(j1).__name__, NI, lambda: f.affine_addition(j1)), ("postcomposition " + type(j2).__name__, NI, lambda: f.postcomposition(j2)),
           ("postcomposition array", NI, lambda: f.postcomposition(v)), ("precomposition a " + type(j2).__name__, NI, lambda: f.precomposition(j2, v)), ("precomposition b " + type(j3).__name__, NI, lambda: f.precomposition(1.5, j3)),
           ("precomposition a array", NI, lambda: f.precomposition(v, v)), ("precomposition int", NI, lambda: f.precomposition(2, 1.)), ("precomposition int offset", NI, lambda: f.precomposition(2., 1))]
    pr = lambda h: h().prox(x.copy(), .5)
    good = [("plus array", lambda: pr(lambda: f + v)), ("minus array", lambda: pr(lambda: f - v)), ("integer array", lambda: pr(lambda: f + np.arange(n))), ("postcomposition", lambda: pr(lambda: f.postcomposition(2.))), ("numpy float", lambda: pr(lambda: f.postcomposition(np.float64(2.)))),
            ("times int", lambda: pr(lambda: 2 * f)), ("times float", lambda: pr(lambda: 2.5 * f)), ("precomposition scalar", lambda: pr(lambda: f.precomposition(2., 1.))), ("precomposition array", lambda: pr(lambda: f.precomposition(-2., v))),
            ("precomposition numpy float", lambda: pr(lambda: f.precomposition(np.float64(2.), np.float64(1.)))), ("chain", lambda: pr(lambda: f.chain(f))), ("adjoint", lambda: pr(lambda: f.H)), ("offset int array", lambda: pr(lambda: f.precomposition(2., np.arange(n))))]
    return "derived operators: operands", bad, good


def r_base(rng, log):
    import pyproximal
    n = int(rng.integers(1, 6))
    x = rng.standard_normal(n)

    class OnlyProx(pyproximal.ProxOperator):
        def __init__(self):
            super().__init__(None, False)

        def prox(self, x, tau):
            return x / (1 + tau)

        def proxdual(self, x, tau):
            return self._proxdual_moreau(x, tau)

    class OnlyDual(pyproximal.ProxOperator):
        def __init__(self):
            super().__init__(None, False)

        def proxdual(self, x, tau):
            return x / (1 + tau)

        def prox(self, x, tau):
            return self._prox_moreau(x, tau)
    w = OnlyProx() if rng.random() < .5 else OnlyDual()
    NI = NotImplementedError
    v = rng.standard_normal(n)
    bad = [("value", NI, lambda: w(x)), ("value of a sum", NI, lambda: (w + v)(x)), ("value of a multiple", NI, lambda: (2. * w)(x)), ("value of a precomposition", NI, lambda: w.precomposition(2., 1.)(x)), ("value in a stack", NI, lambda: P().VStack([w], nn=[n])(x)), ("value of the base class", NI, lambda: pyproximal.ProxOperator()(x)), ("value in a Sum", NI, lambda: P().Sum([w, w])(x))]
    good = [("prox", lambda: w.prox(x.copy(), .5)), ("dual", lambda: w.proxdual(x.copy(), .5)), ("envelope gradient", lambda: w.grad(x.copy())), ("derived", lambda: (2. * w + v).prox(x.copy(), .5)), ("stack", lambda: P().VStack([w], nn=[n]).prox(x.copy(), .5)), ("Sum", lambda: P().Sum([w, w], niter=10).prox(x.copy(), .5))]
    return "unimplemented value", bad, good


def r_bilinear(rng, log):
    from pyproximal.utils.bilinear import LowRankFactorizedMatrix as L
    n, k, m = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
    sq = int(rng.integers(1, 5))
    X, Y, d = rng.standard_normal((n, k)), rng.standard_normal((k, m)), rng.standard_normal(n * m)
    op = gen.dense(rng.standard_normal((3, n * m)))
    mk = lambda: L(X.copy(), Y.copy(), d.copy())
    mo = lambda: L(X.copy(), Y.copy(), np.zeros(3), Op=op)
    Xs, Ys = rng.standard_normal((sq, k)), rng.standard_normal((k, sq))
    ms = lambda: L(Xs.copy(), Ys.copy(), np.zeros(sq * sq))
    bad = [("ambiguous matvec", NotImplementedError, lambda: ms().matvec(Xs.ravel())), ("lx with an operator", ValueError, lambda: mo().lx(X.ravel())), ("ly with an operator", ValueError, lambda: mo().ly(Y.ravel()))]
    good = [("lx", lambda: np.array(mk().lx(X.ravel()))), ("ly", lambda: np.array(mk().ly(Y.ravel()))), ("value", lambda: np.array(mo()(X.ravel(), Y.ravel()))), ("square gradx", lambda: ms().gradx(Xs.ravel())), ("square grady", lambda: ms().grady(Ys.ravel())), ("square matvecx", lambda: ms()._matvecx(Xs.ravel()))]
    if n != m:
        good += [("matvec x", lambda: mk().matvec(X.ravel())), ("matvec y", lambda: mk().matvec(Y.ravel())), ("matvec x operator", lambda: mo().matvec(X.ravel()))]
    return "bilinear: ambiguous requests", bad, good


def r_checkers(rng, log):
    import pyproximal
    from pyproximal.utils.moreau import moreau
    from pyproximal.utils.gradtest import gradtest_proximal
    n = int(rng.integers(2, 6))
    x = rng.standard_normal(n)

    class Wrong(pyproximal.ProxOperator):
        def __init__(self):
            super().__init__(None, True)

        def __call__(self, x):
            return float(np.sum(np.abs(x) ** 2) / 2)

        def prox(self, x, tau):
            return x / (1 + tau) + 1.

        def proxdual(self, x, tau):
            return x / (1 + tau)

        def grad(self, x):
            return 2. * x + 3.
    w, f = Wrong(), P().L2()
    bad = [("moreau", ValueError, lambda: moreau(w, x, .7)), ("moreau raising", ValueError, lambda: moreau(w, x, .7, raiseerror=True)), ("gradient", AssertionError, lambda: gradtest_proximal(w, n, raiseerror=True))]
    good = [("moreau", lambda: np.array(float(moreau(f, x, .7)))), ("gradient", lambda: np.array(float(gradtest_proximal(f, n, rtol=1e-2, atol=1e-4, raiseerror=True)))), ("moreau silent", lambda: np.array(float(moreau(w, x, .7, raiseerror=False))))]
    return "checkers: failed verifications", bad, good


def r_tau(rng, log):
    n = int(rng.integers(1, 5))
    x = rng.standard_normal(n)
    nm = ["L1", "L2", "Euclidean", "Box", "EuclideanBall", "L0", "Huber", "TV", "ETP", "Quadratic"][int(rng.integers(0, 10))]
    p = P()
    mk = dict(L1=lambda: p.L1(), L2=lambda: p.L2(), Euclidean=lambda: p.Euclidean(), Box=lambda: p.Box(0, 1), EuclideanBall=lambda: p.EuclideanBall(0., 1.), L0=lambda: p.L0(), Huber=lambda: p.Huber(.4), TV=lambda: p.TV(dims=None), ETP=lambda: p.ETP(1.), Quadratic=lambda: p.Quadratic(b=np.ones(n)))[nm]
    if nm == "TV" and n < 2:
        x = rng.standard_normal(3)
    f = mk()
    v = rng.choice([0, -1, -.5, -1e-300, 0., -np.inf])
    bad = [(f"{nm}.prox({v!r})", ValueError, lambda: f.prox(x, v)), (f"{nm}.proxdual({v!r})", ValueError, lambda: f.proxdual(x, v)), (f"{nm}.prox(tau={v!r})", ValueError, lambda: f.prox(x, tau=v))]
    good = [(f"{nm}.prox({t!r})", lambda t=t: f.prox(x.copy(), t)) for t in (1, 1e-3, 5., np.float64(.5), np.float32(.5), np.int64(2))] + [("keyword", lambda: f.prox(x.copy(), tau=.5)), ("dual", lambda: f.proxdual(x.copy(), .5))]
    return "positive step", bad, good


RULES = [r_starts, r_accel, r_weights, r_sum, r_simplex, r_vstack, r_quadratic, r_l2, r_penalty, r_derived, r_base, r_bilinear, r_checkers, r_tau]


def rules(m):
    rng = m.rng
    fn = RULES[m.index % len(RULES)]
    log = []
    title, bad, good = fn(rng, log)
    order = rng.permutation(len(bad) + len(good))
    m.describe(rule=title, bad=[b[0] for b in bad], good=[g[0] for g in good])
    for i in order:
        if i < len(bad):
            nm, exc, go = bad[i]
            k = len(log)
            try:
                r = go()
            except exc as e:
                m.ok(isinstance(e, exc), "an invalid request raises the documented error")
                m.event("rejected: " + title)
            except Exception as e:
                m.ok(False, "an invalid request raises the documented error", rule=title, case=nm, got=type(e).__name__ + ": " + str(e), want=str(exc))
            else:
                m.ok(False, "an invalid request is rejected", rule=title, case=nm, got=r)
            if "unimplemented" not in title and "checkers" not in title:
                m.ok(len(log) == k, "a rejected request does no work", rule=title, case=nm, calls=log[k:])
        else:
            nm, go = good[i - len(bad)]
            try:
                r = go()
            except Exception as e:
                m.ok(False, "a valid request is accepted", rule=title, case=nm, got=type(e).__name__ + ": " + str(e))
                continue
            r = r if isinstance(r, tuple) else (r,)
            for a in r:
                m.ok(isinstance(a, np.ndarray) and a.size and np.all(np.isfinite(a)), "a valid request is answered", rule=title, case=nm, got=a)
            m.event("accepted: " + title)
    m.nontrivial(title, rng.bit_generator.state["state"]["state"])


# ------------------------------------------------------------- the documented domain is accepted
def accepted(m):
    """Any operator drawn from the documented domain answers every documented call."""
    rng = m.rng
    it = Z.pick(m, .2)
    try:
        op = it.make()
        x = it.draw(rng)
        for t in (gen.logu(rng, .05, 5), 1, 1.):
            for r in (op.prox(x.copy(), t), op.proxdual(x.copy(), t)):
                m.ok(np.shape(r) == x.shape, "a valid request is answered", spec=it.name)
        if it.value:
            m.ok(np.ndim(op(x.copy())) == 0, "a valid request is answered", spec=it.name)
    except Exception as e:
        m.ok(False, "a valid request is accepted", spec=it.name, x=x if "x" in dir() else None, got=type(e).__name__ + ": " + str(e))
    m.event("accepted operators")
    m.describe(spec=it.name)
    m.nontrivial(it.name, x.tobytes())


def acceptedruns(m):
    """Any solver call drawn from the documented options runs."""
    rng = m.rng
    tab = {**S.ALL, **W.WRAPS}
    nm = list(tab)[m.index % len(tab)]
    c = nm not in S.NOCPLX and nm != "Segment" and rng.random() < .2
    run = tab[nm](rng, c)
    m.describe(solver=nm, opts=run.opts)
    show = bool(rng.random() < .3)
    niter = int(rng.choice([1, 2, 3, 10]))
    import contextlib
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            seen, res = S.trace(run, niter, show=show)
    except ZeroDivisionError:
        if "PALM" in nm.upper():
            m.event("degenerate factor")
            return
        raise
    except Exception as e:
        m.ok(False, "a valid solver call is accepted", solver=nm, opts=run.opts, got=type(e).__name__ + ": " + str(e))
        return
    m.ok(len(seen) <= max(niter, 1) * 40 and len(seen) >= 1, "a valid solver call iterates", solver=nm, got=len(seen), niter=niter)
    m.event("accepted runs: " + nm)
    m.nontrivial(nm, niter, show, str(run.opts))


GROUPS = [("rules", rules, 2800, 60000), ("accepted", accepted, 1200, 30000), ("acceptedruns", acceptedruns, 500, 8000)]
