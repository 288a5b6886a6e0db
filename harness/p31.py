"""P31: options left out act as their documented defaults, and arguments keep their documented order."""
import contextlib
import io
import re

import numpy as np

import catalog as C
import gen
import solvers as S

PROP = "P31"
CBV = object()      # stands for the callback that records the iterates
RULE = ("one case = one public callable on one drawn problem, used with an option left out, given its documented default, given another value, and with all arguments by position; "
        "the observed answers (values, steps, gradients, iterates, printed lines) of equivalent calls must be identical; non-trivial when another value of that option is visible in the answers")


class Entry:
    """name, callable(args, kwargs) -> observations, required values in order, options name -> (default, other) in order."""

    def __init__(self, name, fn, req, opt, fixed=(), skip=()):
        self.name, self.fn, self.req, self.opt, self.fixed, self.skip = name, fn, req, opt, set(fixed), set(skip)


def obs_op(cls, xs, ts, calls=("value", "prox", "dual", "grad", "prox")):
    def fn(args, kw):
        o = cls(*args, **kw)
        out = []
        for i, x in enumerate(xs):
            t = ts[i % len(ts)]
            for c in calls:
                try:
                    v = o(x.copy()) if c == "value" else o.grad(x.copy()) if c == "grad" else (o.prox if c == "prox" else o.proxdual)(x.copy(), t)
                except (NotImplementedError, AttributeError) as e:
                    v = type(e).__name__
                out.append(v)
        return out
    return fn


def obs_proj(cls, xs):
    def fn(args, kw):
        o = cls(*args, **kw)
        return [o(x.copy()) for x in xs]
    return fn


def obs_solver(f):
    """Iterates, results and printed lines (without the elapsed time) of a solver run."""
    def fn(args, kw):
        seen, buf = [], io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = f(args, kw, lambda *a: seen.append([np.array(v, copy=True) for v in a]))
        txt = re.sub(r"Total time.*", "Total time", buf.getvalue())
        return [seen, r, re.sub(r"0x[0-9a-f]+", "", txt)]
    return fn


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return a is b or (isinstance(a, str) and a == b)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))


# ------------------------------------------------------------------ operators
def operators(rng):
    P = C.P()
    n = int(rng.integers(3, 7))
    v = lambda *k: rng.standard_normal(k or n) * 2
    xs, ts = [v(), v() * .3, v() * 4], [gen.logu(rng, .2, 3) for _ in range(3)]
    sg, t1, r = gen.logu(rng, .2, 3), gen.logu(rng, .2, 3), gen.logu(rng, .3, 3)
    f = lambda nm, cls, req, opt, X=xs, **kw: Entry(nm, obs_op(cls, X, ts), req, opt, **kw)
    o = {}
    o["Box"] = lambda: f("Box", P.Box, {}, dict(lower=(-np.inf, -.2), upper=(np.inf, .3)))
    o["ETP"] = lambda: f("ETP", P.ETP, dict(sigma=sg), dict(gamma=(1., .3)))
    o["Geman"] = lambda: f("Geman", P.Geman, dict(sigma=sg), dict(gamma=(1.3, .4)))
    o["Log"] = lambda: f("Log", P.Log, dict(sigma=sg), dict(gamma=(1.3, .4)))
    o["Log1"] = lambda: f("Log1", P.Log1, dict(sigma=sg), dict(delta=(1e-10, .4)))
    o["SCAD"] = lambda: f("SCAD", P.SCAD, dict(sigma=sg), dict(a=(3.7, 2.4)))
    o["Euclidean"] = lambda: f("Euclidean", P.Euclidean, {}, dict(sigma=(1., .3)))
    o["EuclideanBall"] = lambda: f("EuclideanBall", P.EuclideanBall, dict(center=v(), radius=r), {})
    o["HalfSpace"] = lambda: f("HalfSpace", P.HalfSpace, dict(w=v(), b=sg), {})
    o["Huber"] = lambda: f("Huber", P.Huber, dict(alpha=sg), {})
    o["HuberCircular"] = lambda: f("HuberCircular", P.HuberCircular, dict(alpha=sg), {})
    o["L0"] = lambda: f("L0", P.L0, {}, dict(sigma=(1., .1)))
    o["L0Ball"] = lambda: f("L0Ball", P.L0Ball, dict(radius=2), {})
    o["L1"] = lambda: f("L1", P.L1, {}, dict(sigma=(1., .3), g=(None, v())))
    o["L1Ball"] = lambda: f("L1Ball", P.L1Ball, dict(n=n, radius=r), dict(maxiter=(100, 4), xtol=(1e-5, .05)))
    o["RelaxedMumfordShah"] = lambda: f("RelaxedMumfordShah", P.RelaxedMumfordShah, {}, dict(sigma=(1., .2), kappa=(1., .1)))
    o["QuadraticEnvelopeCard"] = lambda: f("QuadraticEnvelopeCard", P.QuadraticEnvelopeCard, dict(mu=sg), {})
    o["QuadraticEnvelopeCardIndicator"] = lambda: f("QuadraticEnvelopeCardIndicator", P.QuadraticEnvelopeCardIndicator, dict(r0=2), {})
    o["L2"] = lambda: f("L2", P.L2, {}, dict(Op=(None, None), b=(None, v()), q=(None, v()), sigma=(1., .3), alpha=(1., .4), qgrad=(True, False)), skip=("Op",))
    A = v(n - 1, n)
    o["L2[free]"] = lambda: f("L2[free]", P.L2, dict(Op=gen.free(A), b=v(n - 1)), dict(q=(None, v()), sigma=(1., .3), alpha=(1., .4), qgrad=(True, False), niter=(10, 1), x0=(None, v()), warm=(True, False), solver=("legacy", "cg")))
    o["L2[dense]"] = lambda: f("L2[dense]", P.L2, dict(Op=gen.dense(A), b=v(n - 1)), dict(q=(None, v()), sigma=(1., .3), alpha=(1., .4), qgrad=(True, False), niter=(10, 1), x0=(None, None), warm=(True, False), solver=("legacy", "cgls"), densesolver=(None, "factorize"), kwargs_solver=(None, None)), skip=("niter", "x0", "warm", "kwargs_solver"))
    o["L2Convolve"] = lambda: f("L2Convolve", P.L2Convolve, dict(h=v(3), b=v()), dict(nfft=(1024, n), sigma=(1., .3)))
    B = A.T @ A / n
    o["Quadratic"] = lambda: f("Quadratic", P.Quadratic, {}, dict(Op=(None, gen.dense(B)), b=(None, v()), c=(0., .7)))
    o["Quadratic[free]"] = lambda: f("Quadratic[free]", P.Quadratic, dict(Op=gen.free(B)), dict(b=(None, v()), c=(0., .7), niter=(10, 1), x0=(None, v()), warm=(True, False)), fixed=("b",))
    Q = gen.dense(gen.orth(rng, n) * 1.)
    o["Orthogonal"] = lambda: f("Orthogonal", P.Orthogonal, dict(f=P.L1(.6), Q=Q), dict(partial=(False, True), b=(None, v())))
    o["Orthogonal[partial]"] = lambda: f("Orthogonal[partial]", P.Orthogonal, dict(f=P.L1(.6), Q=gen.dense(np.sqrt(.5) * np.eye(n)), partial=True), dict(b=(None, v()), alpha=(1., .5)))
    X2 = [v(2, 3).ravel() for _ in range(3)]
    X3 = [v(2, 3) for _ in range(3)]
    o["L21"] = lambda: f("L21", P.L21, dict(ndim=2), dict(sigma=(1., .3)), X2)
    o["L21_plus_L1"] = lambda: f("L21_plus_L1", P.L21_plus_L1, {}, dict(sigma=(1., .3), rho=(.8, .3)), X3)
    o["L10Ball"] = lambda: f("L10Ball", P.L10Ball, dict(ndim=2, radius=1), {}, X2)
    o["Nuclear"] = lambda: f("Nuclear", P.Nuclear, dict(dim=(2, 3)), dict(sigma=(1., .3)), X2)
    o["NuclearBall"] = lambda: f("NuclearBall", P.NuclearBall, dict(dims=(2, 3), radius=r * .5), dict(maxiter=(100, 3), xtol=(1e-5, .05)), X2)
    o["SingularValuePenalty"] = lambda: f("SingularValuePenalty", P.SingularValuePenalty, dict(dim=(2, 3), penalty=P.Log(sg)), {}, X2)
    o["QuadraticEnvelopeRankL2"] = lambda: f("QuadraticEnvelopeRankL2", P.QuadraticEnvelopeRankL2, dict(dim=(2, 3), r0=1, M=v(2, 3)), {}, X2)
    o["Hankel"] = lambda: f("Hankel", P.Hankel, dict(dim=(2, 3)), {}, X2)
    o["Simplex"] = lambda: f("Simplex", P.Simplex, dict(n=n, radius=r), dict(dims=(None, None), axis=(-1, -1), maxiter=(100, 4), ftol=(1e-8, .1), xtol=(1e-8, .05), call=(True, False), engine=("numpy", "numba")), xs + [np.full(n, r / n)], skip=("dims", "axis", "ftol"))
    o["Simplex[dims]"] = lambda: f("Simplex[dims]", P.Simplex, dict(n=6, radius=r, dims=(2, 3)), dict(axis=(-1, 0), maxiter=(100, 4), ftol=(1e-8, .3), xtol=(1e-8, .05), call=(True, False), engine=("numpy", "numba")), X2 + [np.array([r, 0., 0., 0., r, 0.])])
    sig = np.abs(v(n)) / n
    K = int(rng.integers(2, 4))
    SG = np.abs(rng.standard_normal((K, K)))
    SG = SG + SG.T
    XK = [v(K * 2) * 3 for _ in range(3)]
    o["Intersection"] = lambda: f("Intersection", P.Intersection, dict(k=K, n=2, sigma=SG), dict(niter=(100, 1), tol=(1e-5, .5), call=(True, False)), XK + [np.zeros(2 * K)])
    b1, b2 = P.projection.BoxProj(-.6, .6), P.projection.HalfSpaceProj(v(), -.4)
    o["GenericIntersectionProx"] = lambda: f("GenericIntersectionProx", P.GenericIntersectionProx, dict(projections=[b1, b2]), dict(niter=(1000, 1), tol=(1e-6, .3), use_parallel=(False, True)))
    w3 = np.abs(v(3)) + .2
    fs = lambda k: [P.L1(.4), P.L2(b=v(), sigma=.7), P.Box(-1., 1.)][:k]
    f3, f2 = fs(3), fs(2)
    o["Sum"] = lambda: f("Sum", P.Sum, dict(ops=f3), dict(weights=(None, list(w3 / w3.sum())), niter=(1000, 2), tol=(1e-7, .1), use_parallel=(False, True), use_original_tau=(False, True)), skip=("use_parallel",))
    o["Sum[2]"] = lambda: f("Sum[2]", P.Sum, dict(ops=f2), dict(weights=(None, [.3, .7]), niter=(1000, 2), tol=(1e-7, .1), use_parallel=(False, True), use_original_tau=(False, True)), skip=("weights", "use_original_tau"))
    o["VStack"] = lambda: f("VStack", P.VStack, dict(ops=[P.L1(.5), P.L2(sigma=.7)]), dict(nn=([2, n - 2], [n - 2, 2])), fixed=("nn",))
    x2 = v(9) * 3
    TX = [x2, v(9)]
    o["TV"] = lambda: Entry("TV", obs_op(P.TV, TX, ts), dict(dims=(3, 3)), dict(sigma=(1., .3), niter=(10, 2), rtol=(1e-4, .3)))

    class Curve(P.Nonlinear):
        def fun(self, x):
            return float(np.sum(np.logaddexp(x, -x)))

        def grad(self, x):
            return np.tanh(x)

        def optimize(self):
            x = self.x0
            for _ in range(self.niter):
                x = x - .3 * self._gradprox(x, self.tau)
            return x
    o["Nonlinear"] = lambda: f("Nonlinear", Curve, dict(x0=v()), dict(niter=(10, 2), warm=(True, False)))

    class User(P.ProxOperator):
        """A class written by a user on the library's base class."""

        def prox(self, x, tau):
            return np.sign(x) * np.maximum(np.abs(x) - tau, 0)

    def base(args, kw):
        u = User(*args, **kw)
        return [u.Op is None, bool(u.hasgrad), float(u.sigmame)] + [u.grad(x.copy()) for x in xs] + [u.proxdual(x.copy(), t1) for x in xs]
    o["ProxOperator"] = lambda: Entry("ProxOperator", base, {}, dict(Op=(None, gen.dense(A)), hasgrad=(False, True), sigmame=(1., .3)))
    # projections
    J = P.projection
    g = lambda nm, cls, req, opt, X=xs, **kw: Entry(nm, obs_proj(cls, X), req, opt, **kw)
    o["BoxProj"] = lambda: g("BoxProj", J.BoxProj, {}, dict(lower=(-np.inf, -.2), upper=(np.inf, .3)))
    o["HyperPlaneBoxProj"] = lambda: g("HyperPlaneBoxProj", J.HyperPlaneBoxProj, dict(coeffs=np.abs(v()) + .1, scalar=.5), dict(lower=(-np.inf, -1.), upper=(np.inf, 1.5), maxiter=(100, 3), xtol=(1e-5, .05)))
    o["EuclideanBallProj"] = lambda: g("EuclideanBallProj", J.EuclideanBallProj, dict(center=v(), radius=r), {})
    o["HalfSpaceProj"] = lambda: g("HalfSpaceProj", J.HalfSpaceProj, dict(w=v(), b=sg), {})
    o["GenericIntersectionProj"] = lambda: g("GenericIntersectionProj", J.GenericIntersectionProj, dict(projections=[b1, b2]), dict(niter=(1000, 1), tol=(1e-6, .3), use_parallel=(False, True)))
    o["IntersectionProj"] = lambda: g("IntersectionProj", J.IntersectionProj, dict(k=K, n=2, sigma=SG), dict(niter=(100, 1), tol=(1e-5, .5)), [x.reshape(K, 2) for x in XK])
    o["L1BallProj"] = lambda: g("L1BallProj", J.L1BallProj, dict(n=n, radius=r), dict(maxiter=(100, 4), xtol=(1e-5, .05)))
    o["SimplexProj"] = lambda: g("SimplexProj", J.SimplexProj, dict(n=n, radius=r), dict(maxiter=(100, 4), xtol=(1e-5, .05)))
    o["NuclearBallProj"] = lambda: g("NuclearBallProj", J.NuclearBallProj, dict(n=2, radius=r * .5), dict(maxiter=(100, 3), xtol=(1e-5, .05)), X3)
    o["AffineSetProj"] = lambda: g("AffineSetProj", J.AffineSetProj, dict(Op=gen.dense(A), b=v(n - 1), niter=30), {})
    o["AffineSet"] = lambda: f("AffineSet", P.AffineSet, dict(Op=gen.dense(A), b=v(n - 1), niter=30), {})
    o["L10BallProj"] = lambda: g("L10BallProj", J.L10BallProj, dict(radius=1), {}, X3)
    # methods of every operator
    h = P.L1(.7)
    o["methods"] = lambda: Entry("methods", lambda a, k: [h.prox(*a, **k), h.proxdual(*a, **k)], dict(x=v(), tau=t1), {})
    o["precomposition"] = lambda: Entry("precomposition", lambda a, k: [h.precomposition(*a, **k).prox(xs[0].copy(), t1)], dict(a=1.7, b=v()), {})
    return o


# ------------------------------------------------------------------ solvers
def solvers_(rng):
    P, O = C.P(), S.O()
    n = int(rng.integers(3, 6))
    v = lambda *k: rng.standard_normal(k or n) * 2
    A = v(n + 2, n)
    A /= np.linalg.norm(A, 2)
    b, c, x0 = v(n + 2), v(), v()
    L = gen.dense(A)
    K = gen.dense(v(n - 1, n) / 3)
    K2 = np.linalg.norm(K.A, 2) ** 2
    F = lambda: P.L2(Op=gen.dense(A), b=b)
    D = lambda: P.L2(b=c)
    G = lambda: P.L1(.2)
    pr, pd = O.primal, O.primaldual
    z = v(n - 1)

    # functionals are rebuilt for every run: keyword values are makers when callable and marked
    class Make:
        def __init__(self, f):
            self.f = f

    def ev(q):
        return q.f() if isinstance(q, Make) else [ev(e) for e in q] if isinstance(q, list) else q.copy() if isinstance(q, np.ndarray) else q
    mF, mD, mG = Make(F), Make(D), Make(G)
    mB = Make(lambda: P.Box(-.8, .8))

    def f(nm, fn, req, opt, cb="callback", fixed=(), **kw):
        opt = dict(opt)

        def run(args, k, hook):
            args = [hook if a is CBV else ev(a) for a in args]
            k = {i: hook if a is CBV else ev(a) for i, a in k.items()}
            return fn(*args, **k)
        return Entry(nm, obs_solver(run), req, {i: d if isinstance(d, tuple) else (d, d) for i, d in opt.items()}, fixed=tuple(fixed) + ((cb,) if cb in opt else ()), **kw)
    CB = (CBV, CBV)
    N, SH = (10, 4), (False, True)
    o = {}
    o["ProximalPoint"] = lambda: f("ProximalPoint", pr.ProximalPoint, dict(prox=mF, x0=x0, tau=.8), dict(niter=N, tol=(None, .3), callback=CB, show=SH))
    o["ProximalGradient"] = lambda: f("ProximalGradient", pr.ProximalGradient, dict(proxf=mF, proxg=mG, x0=x0), dict(epsg=(1., .4), tau=(None, .7), backtracking=(False, True), beta=(.5, .8), eta=(1., .7), niter=N, niterback=(100, 1), acceleration=(None, "fista"), tol=(None, .3), callback=CB, show=SH))
    o["AndersonProximalGradient"] = lambda: f("AndersonProximalGradient", pr.AndersonProximalGradient, dict(proxf=mF, proxg=mG, x0=x0), dict(epsg=(1., .4), tau=(1., .7), niter=N, nhistory=(10, 3), epsr=(1e-10, 1e-3), safeguard=(False, True), tol=(None, .3), callback=CB, show=SH), skip=("nhistory",))
    o["Anderson[long]"] = lambda: f("AndersonProximalGradient", pr.AndersonProximalGradient, dict(proxf=mF, proxg=mG, x0=x0), dict(epsg=(1., .4), tau=(.5, .7), niter=(24, 15), nhistory=(10, 3), epsr=(1e-4, 1e-3), safeguard=(False, True), tol=(None, .1), callback=CB), fixed=("niter", "tau", "epsr", "tol"))
    o["GeneralizedProximalGradient"] = lambda: f("GeneralizedProximalGradient", pr.GeneralizedProximalGradient, dict(proxfs=[mF, mD], proxgs=[mG, mB], x0=x0, tau=.3), dict(epsg=(1., .4), weights=(None, [.3, .7]), eta=(1., .7), niter=N, acceleration=(None, "vandenberghe"), callback=CB, show=SH))
    o["HQS"] = lambda: f("HQS", pr.HQS, dict(proxf=mF, proxg=mG, x0=x0, tau=.7), dict(niter=N, z0=(None, c), gfirst=(True, False), callback=CB, callbackz=(False, True), show=SH), skip=("z0",))
    o["ADMM"] = lambda: f("ADMM", pr.ADMM, dict(proxf=mF, proxg=mG, x0=x0, tau=.7), dict(niter=N, z0=(None, c), gfirst=(False, True), callback=CB, callbackz=(False, True), show=SH))
    o["ADMML2"] = lambda: f("ADMML2", pr.ADMML2, dict(proxg=mG, Op=L, b=b, A=K, x0=x0, tau=.7), dict(niter=N, z0=(None, z), gfirst=(False, True), callback=CB, show=SH))
    o["LinearizedADMM"] = lambda: f("LinearizedADMM", pr.LinearizedADMM, dict(proxf=mF, proxg=mG, A=K, x0=x0, tau=.7, mu=.6 / K2 if K2 > 1 else .6), dict(niter=N, z0=(None, z), callback=CB, show=SH))
    o["TwIST"] = lambda: f("TwIST", pr.TwIST, dict(proxg=mG, A=L, b=b, x0=x0, alpha=1.2, beta=.9), dict(eigs=(None, (1., .2)), niter=N, callback=CB, show=SH, returncost=(False, True)), skip=("eigs",))
    o["DouglasRachfordSplitting"] = lambda: f("DouglasRachfordSplitting", pr.DouglasRachfordSplitting, dict(proxf=mF, proxg=mG, x0=x0, tau=.7), dict(eta=(1., .6), niter=N, gfirst=(True, False), callback=CB, callbacky=(False, True), show=SH))
    o["PPXA"] = lambda: f("PPXA", pr.PPXA, dict(proxfs=[mF, mG, mB], x0=x0, tau=.7), dict(eta=(1., .6), weights=(None, np.array([.2, .3, .5])), niter=(1000, 12), tol=(1e-7, 1e-2), callback=CB, show=SH))
    o["ConsensusADMM"] = lambda: f("ConsensusADMM", pr.ConsensusADMM, dict(proxfs=[mF, mG, mB], x0=x0, tau=.7), dict(niter=(1000, 6), tol=(1e-7, 1e-2), callback=CB, show=SH))
    st = .9 / np.sqrt(K2)
    o["PrimalDual"] = lambda: f("PrimalDual", pd.PrimalDual, dict(proxf=mF, proxg=mG, A=K, x0=x0, tau=st, mu=st * .8), dict(y0=(None, z), z=(None, c), theta=(1., .3), niter=N, gfirst=(True, False), callback=CB, callbacky=(False, True), returny=(False, True), show=SH))
    o["AdaptivePrimalDual"] = lambda: f("AdaptivePrimalDual", pd.AdaptivePrimalDual, dict(proxf=mF, proxg=mG, A=K, x0=x0, tau=st * 3, mu=st * .2), dict(alpha=(.5, .3), eta=(.95, .6), s=(1., 5.), delta=(1.5, 1.05), z=(None, c), niter=N, tol=(1e-10, 1.), callback=CB, show=SH))
    xb, yb, db = v(6), v(8), v(12)
    mH = Make(lambda: P.utils.bilinear.LowRankFactorizedMatrix(xb.reshape(3, 2).copy(), yb.reshape(2, 4).copy(), db.copy()))
    palm = dict(gammaf=(1., 1.4), gammag=(1., 1.3))
    reqp = dict(H=mH, proxf=mG, proxg=mD if False else Make(lambda: P.L2(sigma=.3)), x0=xb, y0=yb)
    o["PALM"] = lambda: f("PALM", O.palm.PALM, reqp, dict(palm, beta=(.5, .7), niter=N, niterback=(100, 1), callback=CB, show=SH), skip=("beta", "niterback"))
    o["iPALM"] = lambda: f("iPALM", O.palm.iPALM, reqp, dict(palm, a=((1., 1.), (.2, .3)), beta=(.5, .7), niter=N, niterback=(100, 1), callback=CB, show=SH), skip=("beta", "niterback"))
    o["PALM[backtracked]"] = lambda: f("PALM[backtracked]", O.palm.PALM, dict(reqp, gammaf=None, gammag=None), dict(beta=(.5, .7), niter=N, niterback=(100, 1), callback=CB, show=SH))
    o["iPALM[backtracked]"] = lambda: f("iPALM[backtracked]", O.palm.iPALM, dict(reqp, gammaf=None, gammag=None), dict(a=((1., 1.), (.2, .3)), beta=(.5, .7), niter=N, niterback=(100, 1), callback=CB, show=SH))
    o["Bregman"] = lambda: f("Bregman", lambda *a, **k: O.bregman.Bregman(*a, **dict(k, **({} if len(a) > 12 else dict(tau=.5, niter=3)))), dict(proxf=mD, proxg=mG, x0=x0, solver=pr.ProximalGradient),
                             dict(A=(None, None), alpha=(1., .6), niterouter=N, warm=(False, True), tolx=(1e-10, .2), tolf=(1e-10, 1e3), bregcallback=CB, show=SH), cb="bregcallback", skip=("A",))
    den = lambda x, t: x / (1 + t)
    o["PlugAndPlay"] = lambda: f("PlugAndPlay", lambda *a, **k: O.pnp.PlugAndPlay(*a, tau=.5, niter=4, **k), dict(proxf=mF, denoiser=den, dims=(n,), x0=x0), dict(solver=(pr.ADMM, pr.HQS)))
    y = np.abs(v(6)).reshape(2, 3)
    o["Segment"] = lambda: f("Segment", O.segmentation.Segment, dict(y=y, cl=np.array([.5, 2.]), sigma=1.1, alpha=.7), dict(clsigmas=(None, np.array([.5, 1.4])), z=(None, v(12) * .3), niter=N, x0=(None, np.abs(v(12))), callback=CB, show=SH))
    o["SR3"] = lambda: f("SR3", O.sr3.SR3, dict(Op=L, Reg=K, data=b, kappa=.8, eps=.1), dict(x0=(None, x0), adaptive=(True, False), iter_lim_outer=(100, 3), iter_lim_inner=(100, 1)))
    # utilities
    ut = P.utils

    def seeded(fn):
        def run(args, kw):
            np.random.seed(5)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    r = fn(*args, **kw)
            except (AssertionError, ValueError) as e:
                r = type(e).__name__
            return [str(r), buf.getvalue()]
        return run
    e1 = float(rng.choice([1e-5, .1, 1.]))

    class Off(P.L1):
        def proxdual(self, x, tau):
            return super().proxdual(x, tau) + e1 * .3
    o["moreau"] = lambda: Entry("moreau", seeded(ut.moreau.moreau if hasattr(ut.moreau, "moreau") else ut.moreau), dict(prox=Off(1.), x=x0, tau=1.), dict(tol=(1e-5, .5), raiseerror=(True, False), verb=(False, True)))
    gt = __import__("pyproximal.utils.gradtest", fromlist=["x"])
    e2 = float(rng.choice([0., 1e-7, 1e-5, 1e-2]))

    class OffG(P.L2):
        def grad(self, x):
            return super().grad(x) * (1 + e2)
    gopt = dict(x=(None, v()), dtype=("float64", "float32"), delta=(1e-6, 1e-2), rtol=(1e-6, .1), atol=(1e-21, 1e-2), complexflag=(False, True), raiseerror=(True, False), verb=(False, True))
    o["gradtest_proximal"] = lambda: Entry("gradtest_proximal", seeded(gt.gradtest_proximal), dict(Op=OffG(b=c), n=n), gopt)
    H = P.utils.bilinear.LowRankFactorizedMatrix(xb.reshape(3, 2), yb.reshape(2, 4), db)
    o["gradtest_bilinear"] = lambda: Entry("gradtest_bilinear", seeded(gt.gradtest_bilinear), dict(Op=H), {k: d for k, d in gopt.items() if k not in ("x", "dtype")}, skip=("complexflag",))

    def low(args, kw):
        h = P.utils.bilinear.LowRankFactorizedMatrix(*args, **kw)
        return [h(xb.copy(), yb.copy()), h.gradx(xb.copy()), h.grady(yb.copy())]
    o["LowRankFactorizedMatrix"] = lambda: Entry("LowRankFactorizedMatrix", low, dict(X=xb.reshape(3, 2), Y=yb.reshape(2, 4), d=db), dict(Op=(None, gen.diag(np.abs(v(12)) + .2))))
    return o


def judge(m, e):
    rng = m.rng
    m.event("callable:" + e.name)
    free = [k for k in e.opt if k not in e.fixed]
    # the other options take one of their two values, the same one throughout
    ctx = {k: e.opt[k][int(rng.random() < .35 and k not in e.skip)] for k in e.opt}
    for k in e.fixed:
        ctx[k] = e.opt[k][0]
    m.describe(callable=e.name, context=[k for k in ctx if ctx[k] is not e.opt[k][0]])

    def call(pos, kw, who):
        try:
            return e.fn(pos, kw)
        except (ZeroDivisionError, RuntimeError) as er:      # a factor of a bilinear model vanished, a bisection cut short
            return [type(er).__name__]
    full = call([], {**e.req, **ctx}, "full")
    # every option at its default may be left out
    left = {k: w for k, w in ctx.items() if w is not e.opt[k][0] or k in e.fixed}
    short_ = call([], {**e.req, **left}, "short")
    out = [k for k in ctx if k not in left]
    if not m.ok(same(full, short_), "leaving out options equals giving their documented defaults", callable=e.name, left_out=out, given=list(left), with_defaults=full, without=short_):
        return
    m.event("options left out", len(out))
    # arguments by position, up to a random cut
    names = list(e.req) + list(ctx)
    vals = [*e.req.values(), *ctx.values()]
    cut = len(names) if rng.random() < .5 else int(rng.integers(0, len(names) + 1))
    posn = call(vals[:cut], dict(zip(names[cut:], vals[cut:])), "positional")
    if not m.ok(same(full, posn), "arguments keep their documented order", callable=e.name, positional=names[:cut], by_keyword=full, by_position=posn):
        return
    m.event("arguments by position", cut)
    # how visible is each option here?
    for k in free:
        if k in e.skip or rng.random() > .5:
            continue
        alt = {**e.req, **ctx, k: e.opt[k][1] if ctx[k] is e.opt[k][0] else e.opt[k][0]}
        if not same(full, call([], alt, "alternative")):
            m.event(f"visible:{e.name}.{k}")
            m.nontrivial(e.name, k, tuple(sorted(left)))
    if not free and len(names) > 1:
        m.nontrivial(e.name, cut)


def ops(m):
    t = operators(m.rng)
    names = list(t)
    judge(m, t[names[m.index % len(names)]]())


def runs(m):
    t = solvers_(m.rng)
    names = list(t)
    judge(m, t[names[m.index % len(names)]]())


GROUPS = [("operators", ops, 1100, 16000), ("runs", runs, 600, 8000)]
