"""P10: arrays owned by the caller are never modified; read-only arrays are accepted."""
import contextlib
import io

import numpy as np

import catalog as C
import gen
import solvers as S
import wraps as W
import zoo

PROP = "P10"
RULE = ("one case = one object or solver used through several public calls while byte snapshots of every array handed to it (arguments and "
        "configuration, half of them write-protected) are compared after each call; non-trivial when the call returned something else than its input")


def arrays_in(v, name, out, depth=0):
    """Every array reachable from an argument."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for i, u in enumerate(v.ravel()):
                arrays_in(u, f"{name}[{i}]", out, depth + 1)
        else:
            out.append((name, v))
    elif isinstance(v, (list, tuple)) and depth < 4:
        out.append((name, v))
        for i, u in enumerate(v):
            arrays_in(u, f"{name}[{i}]", out, depth + 1)
    elif isinstance(v, dict) and depth < 4:
        out.append((name, v))
        for k, u in v.items():
            arrays_in(u, f"{name}[{k!r}]", out, depth + 1)
    return out


def freeze(v):
    if isinstance(v, np.ndarray):
        return v.tobytes()
    if isinstance(v, dict):
        return {k: id(u) if not isinstance(u, (int, float, str, type(None))) else u for k, u in v.items()}
    return [u if isinstance(u, (int, float, complex)) else id(u) for u in v]


class Watch:
    """Byte snapshots of the caller's arrays."""

    def __init__(self, m, what, **named):
        self.m, self.what = m, what
        self.items = []
        for k, v in named.items():
            self.add(k, v)

    def add(self, k, v):
        for nm, a in arrays_in(v, k, []):
            self.items.append((nm, a, freeze(a), getattr(a, "shape", None), getattr(a, "dtype", None)))

    def protect(self):
        for nm, a, *_ in self.items:
            if isinstance(a, np.ndarray):
                a.setflags(write=False)
                self.m.event("write-protected arrays")

    def check(self, call, **kw):
        for nm, a, b, sh, dt in self.items:
            if not self.m.ok(freeze(a) == b and getattr(a, "shape", None) == sh and getattr(a, "dtype", None) == dt,
                             "arrays of the caller are left as they were", which=nm, object=self.what, call=call, now=a,
                             before=np.frombuffer(b, dtype=dt).reshape(sh) if isinstance(a, np.ndarray) else b, **kw):
                return False
        return True


def exercise(m, it, op, w, calls=5, protect=False):
    rng = m.rng
    for _ in range(calls):
        x = it.draw(rng)
        if rng.random() < .12 and not np.iscomplexobj(x):
            x = np.round(x * 3).astype(int)
        k = int(rng.integers(0, 5))
        t = gen.tau(rng)
        if it.vectau and rng.random() < .3 and x.ndim == 1:
            t = np.exp(rng.uniform(-1, 1, x.size))
        ww = Watch(m, it.name, x=x, tau=t)
        if protect:
            ww.protect()
        if k in (0, 1):
            call, r = "prox", op.prox(x, t)
        elif k == 2:
            call, r = "proxdual", op.proxdual(x, t)
        elif k == 3:
            try:
                call, r = "value", op(x) if it.value else None
            except NotImplementedError:
                call, r = "value", None
        else:
            if not it.grad:
                continue
            call, r = "grad", op.grad(x)
        m.event("call:" + call)
        if not (ww.check(call, x=x, tau=t) and w.check(call, x=x, tau=t)):
            return
        if isinstance(r, np.ndarray) and r.shape == x.shape and np.any(r != x):
            m.nontrivial(it.name, call, x.tobytes())


def operators(m):
    rng = m.rng
    it = zoo.pick(m)
    w = Watch(m, it.name, **it.arrays)
    protect = bool(rng.random() < .5)
    if protect:
        w.protect()
    m.describe(op=it.name, protected=protect)
    op = it.make()
    if not w.check("construction"):
        return
    exercise(m, it, op, w, int(rng.integers(3, 8)), protect)
    if it.name.startswith("Sum") or rng.random() < .3:      # building others from it
        v = it.draw(rng)
        ww = Watch(m, it.name, v=v)
        if protect:
            ww.protect()
        for d in (op + v, op - v, 2. * op, op.precomposition(2., v), op.H):
            d.prox(it.draw(rng), 1.)
            if not (ww.check("algebra") and w.check("algebra")):
                return


def projections(m):
    import pyproximal as pp
    pj = pp.projection
    rng = m.rng
    n = int(rng.integers(2, 9))
    k = m.index % 13
    A = gen.mat(rng, max(1, n - 1), n)
    b = rng.standard_normal(A.shape[0])
    lo, hi, c = rng.uniform(-2, 0, n), rng.uniform(.1, 2, n), rng.standard_normal(n)
    a = np.sign(c) * (np.abs(c) + .2)
    x = gen.vec(rng, n, 1.0, 1.0, False, extreme=False)
    sig = np.abs(rng.standard_normal((2, n)))
    iarr = {}
    if k == 0:
        nm, mk, own = "BoxProj", lambda: pj.BoxProj(lo, hi), dict(lo=lo, hi=hi)
    elif k == 1:
        r = float(a @ rng.uniform(lo * .5, hi * .5))
        nm, mk, own = "HyperPlaneBoxProj", lambda: pj.HyperPlaneBoxProj(a, r, lo, hi), dict(a=a, lo=lo, hi=hi)
    elif k == 2:
        nm, mk, own = "SimplexProj", lambda: pj.SimplexProj(n, 1.3), {}
    elif k == 3:
        nm, mk, own = "L0BallProj", lambda: pj.L0BallProj(int(rng.integers(0, n + 1))), {}
    elif k == 4:
        nm, mk, own = "L10BallProj", lambda: pj.L10BallProj(int(rng.integers(0, 3))), {}
        x = rng.standard_normal((3, n))
    elif k == 5:
        nm, mk, own = "L1BallProj", lambda: pj.L1BallProj(n, 1.1), {}
        if rng.random() < .4:
            x = x * np.exp(1j * rng.uniform(0, 7, n))
    elif k == 6:
        nm, mk, own = "EuclideanBallProj", lambda: pj.EuclideanBallProj(c, 1.2), dict(c=c)
    elif k == 7:
        x = rng.standard_normal((3, n))
        nm, mk, own = "NuclearBallProj", lambda: pj.NuclearBallProj(min(3, n), 1.2), {}
    elif k == 8:
        K = 3
        S_ = np.abs(rng.standard_normal((K, K))) + .1
        S_ = (S_ + S_.T) / 2
        x = rng.standard_normal(K * n)
        nm, mk, own = "IntersectionProj", lambda: pj.IntersectionProj(K, n, S_, niter=20), dict(sigma=S_)
    elif k == 9:
        Op = gen.linop(rng, A)
        nm, mk, own = "AffineSetProj", lambda: pj.AffineSetProj(Op, b, 30), dict(A=A, b=b)
    elif k == 10:
        x = rng.standard_normal((3, n))
        nm, mk, own = "HankelProj", lambda: pj.HankelProj(), {}
    elif k == 11:
        nm, mk, own = "HalfSpaceProj", lambda: pj.HalfSpaceProj(c, .3), dict(w=c)
    else:
        ps = [pj.BoxProj(lo, hi), pj.HalfSpaceProj(c, .3), pj.EuclideanBallProj(c, 3.)]
        nm, own = "GenericIntersectionProj", dict(lo=lo, hi=hi, c=c)
        mk = lambda: pj.GenericIntersectionProj(ps, niter=20, use_parallel=bool(m.index & 1))
    protect = bool(rng.random() < .5)
    w = Watch(m, nm, **own)
    if protect:
        w.protect()
    p = mk()
    m.describe(projection=nm, x=x, protected=protect)
    for rep in range(3):
        if rep == 1 and not np.iscomplexobj(x):
            x = x * 3
        if rep == 2 and rng.random() < .3 and not np.iscomplexobj(x):
            x = np.round(x).astype(int)
        ww = Watch(m, nm, x=x)
        if protect:
            ww.protect()
        r = p(x)
        if not (ww.check("call", x=x) and w.check("call", x=x)):
            return
        if np.any(r != x):
            m.nontrivial(nm, x.tobytes())
    m.event("projection:" + nm)


SOLV = {**S.ALL, **W.WRAPS}


class Guarded:
    """Public solver functions watched at their entry for the duration of a case: every array of a call, however nested."""
    MODS = ("primal", "primaldual", "palm", "bregman", "pnp", "sr3", "segmentation")

    def __init__(self, m, protect):
        self.m, self.protect, self.saved = m, protect, []

    def wrap(self, fn):
        def inner(*a, **k):
            w = Watch(self.m, fn.__name__, args=a, kwargs=k)
            if self.protect:
                w.protect()
            r = fn(*a, **k)
            w.check("run")
            self.m.event("watched solver calls")
            return r
        inner.__name__ = fn.__name__
        return inner

    def __enter__(self):
        import types
        for n in self.MODS:
            mod = getattr(S.O(), n)
            for k, v in list(vars(mod).items()):
                if isinstance(v, types.FunctionType) and k[0].isupper() and v.__module__ == mod.__name__:
                    self.saved.append((mod, k, v))
                    setattr(mod, k, self.wrap(v))
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)


def runs(m):
    rng = m.rng
    names = list(SOLV)
    nm = names[m.index % len(names)]
    run = SOLV[nm](rng, bool(nm not in S.NOCPLX and nm != "Segment" and rng.random() < .25))
    protect = bool(rng.random() < .5)
    w = Watch(m, run.name, **run.arrays)
    if protect:
        w.protect()
    niter = int(rng.choice([1, 3, 12]))
    if nm in ("PALM", "iPALM"):       # the model may degenerate: stop where the reference does
        want, und = S.ref_trace(run, niter)
        niter = len(want) if und else niter
        if niter == 0:
            return
    m.describe(solver=run.name, protected=protect, niter=niter, **{k: str(v) for k, v in run.opts.items()})
    seen = []
    with Guarded(m, protect):
        if rng.random() < .3:
            with contextlib.redirect_stdout(io.StringIO()):
                run.call(niter, None, True)
        else:
            run.call(niter, lambda *a: seen.append(1))
    w.check("run", opts=run.opts)
    m.event("solver:" + nm)
    m.nontrivial(run.name, str(run.opts), niter)


# ------------------------------------------------------------------ hostile but legal operators
_alias = {}


def aliasop(kind, c=None):
    """Functionals of a user whose steps hand back the very array they were given, or one they own."""
    if not _alias:
        from pyproximal.ProxOperator import ProxOperator

        class Zero(ProxOperator):
            def __init__(self):
                super().__init__(None, True)
                self._z = {}

            def __call__(self, x):
                return 0.

            def prox(self, x, tau):
                return x

            def proxdual(self, x, tau):
                return self.grad(x)

            def grad(self, x):
                return self._z.setdefault((x.shape, x.dtype.char), np.zeros_like(x))

        class Linear(ProxOperator):
            def __init__(self, c):
                super().__init__(None, True)
                self.c = c

            def __call__(self, x):
                return C.rdot(self.c, x)

            def prox(self, x, tau):
                return x - tau * self.c

            def proxdual(self, x, tau):
                return self.c

            def grad(self, x):
                return self.c
        _alias.update(Zero=Zero, Linear=Linear)
    return _alias["Zero"]() if kind == "Zero" else _alias["Linear"](c)


def aliasspec(rng, n, cplx):
    if rng.random() < .6:
        return C.Spec("Zero", lambda: aliasop("Zero"), n, lambda x: 0., lambda x, t: x.copy(), grad=lambda x: x * 0, cplx=cplx)
    c = S.vec(rng, n, cplx, 1.)
    return C.Spec("Linear", lambda: aliasop("Linear", c), n, lambda x: C.rdot(c, x), lambda x, t: x - t * c, grad=lambda x: c.copy(), arrays=dict(c=c), cplx=cplx)


GABLE = [k for k in S.ALL if k not in ("MultiRHS", "TwIST")]


def aliasing(m):
    """Solvers fed with a functional whose steps return their argument (or an array of the caller) unchanged."""
    rng = m.rng
    nm = GABLE[m.index % len(GABLE)]
    cplx = bool(nm not in S.NOCPLX and rng.random() < .25)
    if nm in ("PALM", "iPALM"):
        g = None
    else:
        g = aliasspec(rng, int(rng.integers(2, 6)), cplx)
    orig_smooth, orig_any, orig_lib = S.smooth, S.anyf, S.lib
    try:
        if rng.random() < .6 or g is None:
            S.anyf = lambda rng, n, cplx=False, noind=True: aliasspec(rng, n, cplx)
        S.lib = lambda b, s: s.make() if s.name in ("Zero", "Linear") else orig_lib(b, s)
        kw = {} if g is None or rng.random() < .2 else ({"f": g} if nm in ("PrimalDual", "AdaptivePrimalDual") else {"g": g})
        run = S.ALL[nm](rng, cplx, **kw)
        w = Watch(m, run.name, **run.arrays)
        S.lockstep(m, run, int(rng.choice([1, 3, 8])))
        w.check("run", opts=run.opts)
    finally:
        S.smooth, S.anyf, S.lib = orig_smooth, orig_any, orig_lib
    m.event("solver with aliasing steps:" + nm)
    m.nontrivial(run.name, str(run.opts))


def identity(m):
    """Everything that takes a linear operator, with an identity that returns the array it got, against a dense identity."""
    rng = m.rng
    P = C.P()
    o = S.O()
    n = int(rng.integers(2, 6))
    cplx = bool(rng.random() < .2)
    I1, I2 = gen.inplace_identity(n, "complex128" if cplx else "float64"), gen.dense(np.eye(n, dtype=complex if cplx else float))
    b, q, x, v = (S.vec(rng, n, c, 1.) for c in (cplx, False, cplx, False))
    t, s = gen.logu(rng, .2, 3), gen.logu(rng, .2, 3)
    ni = int(rng.integers(1, 8))
    k = m.index % 18
    uq = bool(rng.random() < .5) and not cplx
    kq = dict(q=q, alpha=.7, qgrad=bool(rng.random() < .5)) if uq else {}
    z = lambda: None
    f1, g1 = P.L2(b=b, sigma=s), P.L1(sigma=.3)
    warm = bool(rng.random() < .5)
    solver = ["legacy", "cg", "cgls"][int(rng.integers(0, 3))]
    kso = dict(niter=30, warm=warm, solver=solver, kwargs_solver=dict(atol=1e-13, btol=1e-13) if solver == "legacy" else dict(tol=1e-26))
    own = dict(b=b, q=q, v=v)
    one = dict(
        L2=lambda I: P.L2(Op=I, b=b, sigma=s, **kso, **kq),
        L2nob=lambda I: P.L2(Op=I, b=np.zeros(n), sigma=s, **kso, **kq),
        Quadratic=lambda I: P.Quadratic(Op=I, b=v, c=1., niter=30, warm=warm),
        Orth=lambda I: P.Orthogonal(P.L1(s), I, b=v if uq else None),
        OrthP=lambda I: P.Orthogonal(P.L2(b=b, sigma=s), I, partial=True, b=v, alpha=1.),
        Affine=lambda I: P.AffineSet(I, v, 20))
    names = list(one)
    m.describe(which=k, n=n, complex=cplx, x=x)
    tol = 1e-5 * (1 + np.abs(x).max() + np.abs(b).max() + np.abs(v).max() + np.abs(q).max())
    if k < 9:
        nm = names[k % len(names)]
        if cplx and nm in ("Affine", "Quadratic", "Orth", "OrthP"):
            cplx_ok = nm not in ("Affine", "Quadratic")
            if not cplx_ok:
                return
        a1, a2 = one[nm](I1), one[nm](I2)
        for rep in range(4):
            xx = S.vec(rng, n, cplx, 1.)
            w = Watch(m, nm, x=xx, **own)
            r1 = a1.prox(xx, t)
            if not w.check("prox", x=xx):
                return
            m.close(r1, a2.prox(xx.copy(), t), "identity operators give the same proximal step", tol, op=nm, x=xx)
            if nm not in ("Affine", "Orth"):
                u1 = a1.grad(xx)
                if not w.check("grad", x=xx):
                    return
                m.close(u1, a2.grad(xx.copy()), "identity operators give the same gradient", tol, op=nm, x=xx)
                u2 = u1.copy()
                a1.grad(xx)
                m.close(u1, u2, "a gradient already returned stays what it was", 0, op=nm)
            if nm != "Affine":
                v1 = a1(xx)
                m.le(abs(v1 - a2(xx.copy())), 0, "identity operators give the same value", tol * (1 + np.abs(xx).max()) * 10, op=nm, x=xx)
                if not w.check("value", x=xx):
                    return
        m.event("operator on an aliasing identity:" + nm)
        m.nontrivial(nm, x.tobytes())
        return
    if k == 17 and cplx:
        return
    x0 = S.vec(rng, n, cplx, 1.)
    zz = S.vec(rng, n, cplx, 1.)
    run = [
        ("LinearizedADMM", lambda I: o.primal.LinearizedADMM(f1, g1, I, x0, tau=t, mu=.9 * t, niter=ni)),
        ("LinearizedADMM z0", lambda I: o.primal.LinearizedADMM(f1, g1, I, x0, tau=t, mu=.9 * t, niter=ni, z0=zz)),
        ("ADMML2", lambda I: o.primal.ADMML2(g1, I, b, I, x0, tau=t, niter=ni, iter_lim=30)),
        ("PrimalDual", lambda I: o.primaldual.PrimalDual(f1, g1, I, x0, tau=t, mu=.9 / t, z=zz, niter=ni, gfirst=bool(rng_g))),
        ("PrimalDual y0", lambda I: o.primaldual.PrimalDual(f1, g1, I, x0, tau=t, mu=.9 / t, y0=zz, niter=ni, gfirst=bool(rng_g), theta=th)),
        ("AdaptivePrimalDual", lambda I: o.primaldual.AdaptivePrimalDual(f1, g1, I, x0, tau=t, mu=.9 / t, z=zz, niter=ni)[0]),
        ("ProximalGradient", lambda I: o.primal.ProximalGradient(P.L2(Op=I, b=b, sigma=s), g1, x0, tau=.9 / s, niter=ni, acceleration="fista" if rng_g else None)),
        ("GPG", lambda I: o.primal.GeneralizedProximalGradient([P.L2(Op=I, b=b, sigma=s), f1], [g1, P.L1(.1)], x0, tau=.4 / s, niter=ni)),
        ("SR3", lambda I: o.sr3.SR3(I, I, b.real.copy(), 1.3, .2, x0=x0.real.copy() if rng_g else None, adaptive=bool(ni % 2), iter_lim_outer=ni)),
    ][k - 9]
    rng_g = int(rng.integers(0, 2))
    th = float(rng.choice([0., 1.]))
    w = Watch(m, run[0], x0=x0, z=zz, **own)
    r1 = run[1](I1)
    if not w.check("run"):
        return
    r2 = run[1](I2)
    for u1, u2 in zip(r1 if isinstance(r1, tuple) else (r1,), r2 if isinstance(r2, tuple) else (r2,)):
        m.close(u1, u2, "a solver gives the same answer for aliasing and dense identities", 1e-6 * (1 + np.abs(u2).max()) * (1 + t + 1 / t), solver=run[0], x0=x0)
    m.event("solver on an aliasing identity:" + run[0])
    m.nontrivial(run[0], x0.tobytes())


def checkers(m):
    """Verification utilities leave points, operators and models alone."""
    import pyproximal as pp
    from pyproximal.utils.moreau import moreau as mo
    import pyproximal.utils.gradtest as gt
    rng = m.rng
    k = m.index % 3
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    if k == 0:
        s = C.pick(m, C.CONVEX, .2)
        w = Watch(m, "moreau " + s.name, **s.arrays)
        x = s.draw(rng, 1., kind="normal")
        w.add("x", x)
        if rng.random() < .5:
            w.protect()
        with contextlib.redirect_stdout(io.StringIO()):
            mo(s.make(), x, gen.tau(rng), raiseerror=False, verb=bool(rng.random() < .5))
        w.check("moreau")
        m.nontrivial(s.name, x.tobytes())
    elif k == 1:
        n = int(rng.integers(1, 6))
        c = bool(rng.random() < .4)
        f = S.smooth(rng, n, c)
        x = S.vec(rng, n, c)
        w = Watch(m, "gradtest " + f.name, x=x, **f.arrays)
        if rng.random() < .5:
            w.protect()
        with contextlib.redirect_stdout(io.StringIO()):
            gt.gradtest_proximal(f.make(), n, x=x, raiseerror=False, verb=bool(rng.random() < .5), complexflag=c)
        w.check("gradtest")
        m.nontrivial(f.name, x.tobytes())
    else:
        c = bool(rng.random() < .4)
        b, make, X, Y = S.bilinear(rng, c)
        w = Watch(m, "bilinear", X=X, Y=Y, d=b.d)
        if rng.random() < .5:
            w.protect()
        H = make()
        hx, hy = np.array(H.x, copy=True), np.array(H.y, copy=True)
        x, y = S.vec(rng, b.n * b.k, c), S.vec(rng, b.k * b.m, c)
        w.add("x", x)
        w.add("y", y)
        with contextlib.redirect_stdout(io.StringIO()):
            for _ in range(3):
                gt.gradtest_bilinear(H, raiseerror=False, verb=bool(rng.random() < .5), complexflag=c)
        H.gradx(x), H.grady(y), H(x, y), H._matvecx(x), H._matvecy(y), H.grad(np.concatenate([x, y]))
        w.check("bilinear model and its checker")
        m.close(np.asarray(H.x), hx, "the model's state is left alone", 0)
        m.close(np.asarray(H.y), hy, "the model's state is left alone", 0)
        H.updatex(x), H.updatey(y)
        H.gradx(x * 2), H.grady(y * 2)
        w.check("bilinear model after updates")
        m.nontrivial("bilinear", x.tobytes())
    m.event(["moreau", "gradtest", "bilinear"][k])


GROUPS = [("operators", operators, 900, 16000), ("projections", projections, 260, 3000), ("runs", runs, 440, 6000), ("aliasing", aliasing, 320, 4500),
          ("identity", identity, 280, 3500), ("checkers", checkers, 200, 2500)]
