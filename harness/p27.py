"""P27: shape, type and finiteness of every result, on hostile inputs and degenerate parameters."""
import numpy as np

import catalog as C
import gen
import solvers as S
import wraps as W
import zoo as Z

PROP = "P27"
RULE = ("one case = one operator or solver called on hostile finite input (zeros, signed zeros, denormals, ties, huge and mixed magnitudes, points on thresholds, centres and boundaries, integer, "
        "strided, single precision) or with a degenerate parameter; every returned array is inspected; non-trivial when the result differs from the input and from zero")

SPECIAL = ("zero", "negzero", "denormal", "tiny", "huge", "vast", "mixed", "ties", "onehot", "config", "negconfig", "normal", "eps")


def hostile(rng, base, arrays, kind=None):
    """A finite array shaped like base."""
    k = SPECIAL[int(rng.integers(0, len(SPECIAL)))] if kind is None else kind
    sh = base.shape
    s = np.where(rng.random(sh) < .5, -1., 1.)
    if np.iscomplexobj(base):
        s = s * np.exp(2j * np.pi * rng.integers(0, 8, sh) / 8)
    if k == "zero":
        x = np.zeros(sh) * s.real * (1 if not np.iscomplexobj(base) else 1 + 0j)
        x = np.abs(x) if rng.random() < .5 else x
        x = x.astype(base.dtype)
    elif k == "negzero":
        x = (-np.zeros(sh)).astype(base.dtype)
    elif k == "denormal":
        x = s * 10. ** rng.uniform(-322, -308, sh)
    elif k == "tiny":
        x = s * 10. ** rng.uniform(-200, -20)
    elif k == "huge":
        x = s * 10. ** rng.uniform(5, 12, sh)
    elif k == "vast":
        x = s * 10. ** rng.uniform(12, 100)
    elif k == "mixed":
        x = s * 10. ** rng.uniform(-100, 50, sh) * (rng.random(sh) < .8)
    elif k == "ties":
        x = base * 0 + float(rng.choice([1., -2., .5])) * np.sign(rng.standard_normal() or 1)
    elif k == "onehot":
        x = base * 0
        x[tuple(int(rng.integers(0, q)) for q in sh)] = 3.
    elif k in ("config", "negconfig"):
        c = [v for v in arrays.values() if isinstance(v, np.ndarray) and v.size == base.size and v.dtype.kind in "fc" and np.all(np.isfinite(v))]
        if not c:
            return base, "normal"
        x = np.array(c[int(rng.integers(0, len(c)))]).reshape(sh) * (1 if k == "config" else -1)
        x = x if np.iscomplexobj(base) else np.real(x)
    elif k == "eps":
        x = base * (1 + np.finfo(float).eps * rng.integers(-2, 3, sh))
    else:
        x = base
    return np.ascontiguousarray(x), k


def cplxconf(it):
    return it.cplx or any(isinstance(v, np.ndarray) and np.iscomplexobj(v) for v in it.arrays.values())


def judge(m, r, x, what, real, /, **kw):
    if not m.ok(isinstance(r, np.ndarray), what + ": an array comes back", got=type(r).__name__, **kw):
        return False
    good = m.ok(r.shape == x.shape, what + ": shaped like the input", got=r.shape, want=x.shape, **kw)
    good &= m.ok(r.dtype.kind in "fc", what + ": floating point", got=str(r.dtype), **kw)
    if not good:
        return False
    if real:
        m.ok(r.dtype.kind == "f", what + ": real for real input", got=str(r.dtype), **kw)
    want = x.dtype if x.dtype.kind in "fc" else np.dtype(float)
    m.ok(np.finfo(r.dtype).eps <= np.finfo(want).eps, what + ": no precision is lost", got=str(r.dtype), want=str(want), **kw)
    return m.ok(np.all(np.isfinite(r)), what + ": finite for finite input", got=r, **kw)


def operators(m):
    rng = m.rng
    it = Z.pick(m, .2)
    op = it.make()
    base = it.draw(rng)
    for _ in range(4):
        x, kind = hostile(rng, base, it.arrays)
        t = gen.tau(rng)
        if rng.random() < .15:
            t = float(rng.choice([1e-8, 1e8]))
        if it.iterative or it.name.startswith(("L2[free", "Quadratic[free", "Affine", "Nonlinear")):
            # inner solvers: magnitudes they can represent
            if kind in ("vast", "mixed", "huge"):
                x, kind = base, "normal"
            t = float(np.clip(t, .05, 20)) if "[free" in it.name else float(np.clip(t, 1e-3, 1e3))
        real = not np.iscomplexobj(x) and not cplxconf(it)
        kw = dict(spec=it.name, kind=kind, x=x, tau=t)
        m.describe(**kw)
        if rng.random() < .2 and kind in ("normal", "ties", "onehot", "zero") and not it.sched:
            x = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
        m.event("input:" + kind)
        with np.errstate(all="ignore"):
            p = op.prox(x.copy(), t)
            if not judge(m, p, x, "proximal step", real, **kw):
                return
            d = op.proxdual(x.copy(), t)
            if not judge(m, d, x, "dual step", real, **kw):
                return
            if it.value:
                v = op(x.copy())
                sq = np.abs(x).max(initial=0) < 1e75
                m.ok(np.ndim(v) == 0, "the value is a number", got=v, **kw)
                m.ok(isinstance(v, (bool, np.bool_)) or not np.isnan(v), "the value is a number", got=v, **kw)
                if sq and not isinstance(v, (bool, np.bool_)):
                    m.ok(np.isfinite(v), "the value is finite", got=v, **kw)
                if real:
                    m.ok(not np.iscomplexobj(v), "the value of a real input is real", got=v, **kw)
            if it.grad and np.abs(x).max(initial=0) > 0 and "Euclid" not in it.name:
                g = np.asarray(op.grad(x.copy()))
                judge(m, np.asarray(g), x, "gradient", real, **kw)
        if m.fails:
            return
        if np.any(p != x) and np.any(p != 0):
            m.nontrivial(it.name, kind, x.tobytes(), t)


# ----------------------------------------------------------------------- degenerate settings
def degenerate(m):
    """Zero weights, zero radii, points at centres and on boundaries: the documented limit, not 0/0."""
    rng = m.rng
    P = C.P()
    n = int(rng.integers(1, 6))
    cplx = bool(rng.random() < .25)
    x = gen.vec(rng, n, 1., None, cplx, "normal")
    if rng.random() < .2:
        x = x * (rng.random(n) < .5)
    z = np.zeros(n)
    t = gen.logu(rng, .01, 50)
    nd, k = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    X = gen.vec(rng, nd * k, 1., None, cplx, "normal")
    c = gen.vec(rng, n, 1., None, cplx, "normal")
    xr = np.real(x)
    w = rng.standard_normal(n) + .1
    dims = (int(rng.integers(2, 4)), int(rng.integers(2, 4)))
    XT = rng.standard_normal(dims[0] * dims[1])
    same = lambda v: v
    TAB = [
        ("L1 sigma=0", lambda: P.L1(sigma=0.), x, same), ("L1 sigma=0 g", lambda: P.L1(sigma=0., g=c), x, same),
        ("L1 at its centre", lambda: P.L1(sigma=.7, g=c), c, same),
        ("L1 array with zeros", lambda: P.L1(sigma=np.zeros(n)), x[None], same),
        ("L0 sigma=0", lambda: P.L0(sigma=0.), x, same), ("L2 sigma=0", lambda: P.L2(sigma=0.), x, same),
        ("L2 sigma=0 b", lambda: P.L2(b=c, sigma=0.), x, same), ("L2 at b", lambda: P.L2(b=c, sigma=2.), c, same),
        ("L2 zero operator", lambda: P.L2(Op=gen.dense(np.zeros((2, n), x.dtype)), b=np.ones(2, x.dtype)), x, same),
        ("L2 zero operator free", lambda: P.L2(Op=gen.free(np.zeros((2, n), x.dtype)), b=np.ones(2, x.dtype), niter=10), x, same),
        ("L2 zero operator cgls", lambda: P.L2(Op=gen.free(np.zeros((2, n), x.dtype)), b=np.ones(2, x.dtype), niter=10, solver="cgls", kwargs_solver=dict(tol=1e-26)), x, same),
        ("L2 zero operator cg", lambda: P.L2(Op=gen.free(np.zeros((2, n), x.dtype)), b=np.ones(2, x.dtype), niter=10, solver="cg", kwargs_solver=dict(tol=1e-26)), x, same),
        ("L21 sigma=0", lambda: P.L21(ndim=nd, sigma=0.), X, same),
        ("L21 at zero", lambda: P.L21(ndim=nd, sigma=1.), X * 0, same),
        ("L21_plus_L1 sigma=0", lambda: P.L21_plus_L1(sigma=0., rho=float(rng.choice([0., .5, 1.]))), X.reshape(nd, k), same),
        ("L21_plus_L1 at zero", lambda: P.L21_plus_L1(sigma=1., rho=float(rng.choice([0., .5, 1.]))), X.reshape(nd, k) * 0, same),
        ("Huber at zero", lambda: P.Huber(alpha=.5), x * 0, same), ("HuberCircular at zero", lambda: P.HuberCircular(alpha=.5), x * 0, same),
        ("Huber sharp", lambda: P.Huber(alpha=1e-300), x, lambda v: C.soft(v, t)),
        ("HuberCircular sharp", lambda: P.HuberCircular(alpha=1e-300), x, lambda v: C.shrink(v, t)),
        ("Euclidean at zero", lambda: P.Euclidean(sigma=1.), x * 0, same),
        ("L21 sigma=0 at zero", lambda: P.L21(ndim=nd, sigma=0.), X * 0, same), ("Euclidean sigma=0 at zero", lambda: P.Euclidean(sigma=0.), x * 0, same), ("Euclidean sigma=0", lambda: P.Euclidean(sigma=0.), x, same),
        ("Nuclear sigma=0", lambda: P.Nuclear((nd, k), sigma=0.), X, same), ("Nuclear at zero", lambda: P.Nuclear((nd, k), sigma=1.), X * 0, same),
        ("SVP at zero", lambda: P.SingularValuePenalty((nd, k), P.ETP(1., 1.)), X * 0, same),
        ("ETP at zero", lambda: P.ETP(1., 1.), x * 0, same), ("Geman at zero", lambda: P.Geman(1., 1.), x * 0, same), ("Log at zero", lambda: P.Log(1., 1.), x * 0, same),
        ("Log1 at zero", lambda: P.Log1(1., 1e-3), x * 0, same), ("SCAD at zero", lambda: P.SCAD(1., 3.), x * 0, same),
        ("ETP sigma=0", lambda: P.ETP(0., 1.), x, same), ("Geman sigma=0", lambda: P.Geman(0., 1.), x, same), ("Log sigma=0", lambda: P.Log(0., 1.), x, same),
        ("QECard mu=0", lambda: P.QuadraticEnvelopeCard(0.), x, same), ("QECard at zero", lambda: P.QuadraticEnvelopeCard(1.), x * 0, same),
        ("QECardInd at zero", lambda: P.QuadraticEnvelopeCardIndicator(1), x * 0, same), ("QECardInd all", lambda: P.QuadraticEnvelopeCardIndicator(n), x, same),
        ("RelaxedMS at zero", lambda: P.RelaxedMumfordShah(1., 2.), x * 0, same), ("RelaxedMS kappa=0", lambda: P.RelaxedMumfordShah(1., 0.), x, same),
        ("RelaxedMS sigma=0", lambda: P.RelaxedMumfordShah(0., 2.), x, same),
        ("EuclideanBall r=0", lambda: P.EuclideanBall(c, 0.), x, lambda v: c + 0 * v), ("EuclideanBall r=0 at centre", lambda: P.EuclideanBall(c, 0.), c, same),
        ("EuclideanBall at centre", lambda: P.EuclideanBall(c, 1.), c, same), ("EuclideanBall r=0 at 0", lambda: P.EuclideanBall(0., 0.), x * 0, same),
        ("L1Ball r=0", lambda: P.L1Ball(n, 0., maxiter=200, xtol=1e-14), x, lambda v: 0 * v), ("L1Ball at zero", lambda: P.L1Ball(n, 1.), x * 0, same),
        ("L0Ball r=0", lambda: P.L0Ball(0), x, lambda v: 0 * v), ("L0Ball all", lambda: P.L0Ball(n), x, same), ("L0Ball more than all", lambda: P.L0Ball(n + 3), x, same),
        ("L10Ball r=0", lambda: P.L10Ball(nd, 0), X, lambda v: 0 * v), ("L10Ball all", lambda: P.L10Ball(nd, k), X, same),
        ("NuclearBall r=0", lambda: P.NuclearBall((nd, k), 0., maxiter=200, xtol=1e-14), X, lambda v: 0 * v), ("NuclearBall at zero", lambda: P.NuclearBall((nd, k), 1.), X * 0, same),
        ("Box point", lambda: P.Box(np.real(c), np.real(c)), xr, lambda v: np.real(c) + 0 * v), ("Box all", lambda: P.Box(), xr, same), ("Box at its corner", lambda: P.Box(xr, xr + 1), xr, same),
        ("Box scalar point", lambda: P.Box(.5, .5), xr, lambda v: .5 + 0 * v),
        ("HalfSpace boundary", lambda: P.HalfSpace(w, float(w @ xr)), xr, same),
        ("Simplex at a corner", lambda: P.Simplex(n, 1., maxiter=200, xtol=1e-14), np.eye(n)[0], same), ("Simplex at zero", lambda: P.Simplex(n, 1., maxiter=200, xtol=1e-14), z, lambda v: v + 1. / n),
        ("Simplex of one", lambda: P.Simplex(1, 2., maxiter=200, xtol=1e-14), xr[:1], lambda v: v * 0 + 2.),
        ("Intersection 0", lambda: P.Intersection(2, n, 0., niter=500, tol=1e-12), np.concatenate([xr, xr + 1]), lambda v: np.concatenate([xr + .5, xr + .5])),
        ("Intersection inside", lambda: P.Intersection(2, n, 3.), np.concatenate([xr, xr + 1]), same),
        ("Hankel constant", lambda: P.Hankel(dims), XT * 0 + 1.5, same), ("Hankel zero", lambda: P.Hankel((3, 1)), np.zeros(3), same), ("Hankel row", lambda: P.Hankel((1, dims[0] * dims[1])), XT, same),
        ("Affine on the set", lambda: P.AffineSet(gen.dense(w[None]), np.array([w @ xr]), 20), xr, same), ("Affine 0=0", lambda: P.AffineSet(gen.dense(w[None]), np.zeros(1), 20), z, same),
        ("TV sigma=0", lambda: P.TV(dims=dims, sigma=0., niter=20), XT, same), ("TV zero", lambda: P.TV(dims=dims, sigma=1., niter=20), XT * 0, same), ("TV constant", lambda: P.TV(dims=dims, sigma=1., niter=20), XT * 0 + 2.5, same),
        ("Quadratic zero", lambda: P.Quadratic(Op=gen.dense(np.zeros((n, n))), b=np.zeros(n)), xr, same), ("Quadratic constant", lambda: P.Quadratic(c=2.), x, same), ("Quadratic b=0", lambda: P.Quadratic(b=z), x, same),
        ("Quadratic free zero", lambda: P.Quadratic(Op=gen.free(np.zeros((n, n))), b=np.zeros(n)), xr, same),
        ("L2Convolve delta", lambda: P.L2Convolve(np.array([0.]), np.zeros(n), nfft=n), xr, same),
        ("scaled by tiny", lambda: P.L1(sigma=1.).postcomposition(1e-300), x, same), ("scaled by zero", lambda: P.L1(sigma=1.).postcomposition(0.), x, same) if rng.random() < 0 else ("translated by zero", lambda: P.L1(sigma=0.) + z, x, same),
        ("Orthogonal zero weight", lambda: P.Orthogonal(P.L1(sigma=0.), gen.dense(np.eye(n, dtype=x.dtype)), b=c), x, same),
        ("VStack zero weights", lambda: P.VStack([P.L1(sigma=0.), P.L2(sigma=0.)], nn=[n, nd * k]), np.concatenate([x, X]), same),
        ("Sum of one zero term", lambda: P.Sum([P.L1(sigma=0.)], niter=5), x, same), ("Sum of zero terms", lambda: P.Sum([P.L1(sigma=0.), P.L2(sigma=0.)], niter=20), x, same),
        ("Sum zero parallel", lambda: P.Sum([P.L1(sigma=0.), P.L2(sigma=0.), P.L21(ndim=1, sigma=0.)], niter=20, use_parallel=True), x, same),
    ]
    nm, mk, v, want = TAB[m.index % len(TAB)]
    v = np.array(v, copy=True)
    op = mk()
    m.describe(case=nm, x=v, tau=t)
    with np.errstate(all="ignore"):
        p = op.prox(v.copy(), t)
        if not judge(m, p, v, "proximal step (degenerate setting)", not np.iscomplexobj(v) and not cplx, case=nm, tau=t):
            return
        sc = 1 + float(np.abs(v).max(initial=0))
        loose = 1e-3 if nm.startswith("Affine") else (1e-5 if "free" in nm or "cg" in nm or "Intersection" in nm else 1e-9)
        if not (nm.startswith(("ETP", "Geman", "Log")) and "sigma" not in nm and False):
            m.close(p, want(v), "the documented limit of the proximal step", loose * sc, case=nm, x=v, tau=t)
        d = op.proxdual(v.copy() / t, 1 / t)
        if judge(m, d, v, "dual step (degenerate setting)", not np.iscomplexobj(v) and not cplx, case=nm, tau=t):
            m.close(t * np.asarray(d), v - want(v), "the documented limit of the dual step", (loose + 1e-9) * sc * (1 + t), case=nm, x=v, tau=t)
        val = op(v.copy())
        m.ok(np.ndim(val) == 0 and (isinstance(val, (bool, np.bool_)) or np.isfinite(val)), "the value is finite (degenerate setting)", got=val, case=nm)
        if getattr(op, "hasgrad", False) and not nm.startswith(("Euclidean", "TV")):
            try:
                g = np.asarray(op.grad(v.copy()))
            except NotImplementedError:
                g = None
            if g is not None:
                judge(m, g, v, "gradient (degenerate setting)", not np.iscomplexobj(v) and not cplx, case=nm)
    m.event("case:" + nm)
    m.nontrivial(nm, v.tobytes(), t)


# ---------------------------------------------------------------------- types and layouts
def layouts(m):
    """The same numbers as integers, strided views, Fortran order or other byte order give the same answer."""
    rng = m.rng
    it = Z.pick(m, .15)
    x = it.draw(rng)
    t = gen.logu(rng, .1, 10)
    if not np.iscomplexobj(x):
        x = np.round(x * 2) + 0.
    mode = ("int64", "int32", "strided", "reversed", "fortran", "readonly", "subview", "intsteps")[(m.index // 7) % 8]
    m.describe(spec=it.name, mode=mode, x=x, tau=t)
    if it.sched and mode == "intsteps":
        mode = "strided"
    def view(v):
        if mode in ("int64", "int32"):
            return v.astype(mode) if not np.iscomplexobj(v) else v
        if mode == "strided":
            b = np.full(v.shape[:-1] + (2 * v.shape[-1],), 7.7, v.dtype)
            b[..., ::2] = v
            return b[..., ::2]
        if mode == "reversed":
            return np.ascontiguousarray(v[..., ::-1])[..., ::-1]
        if mode == "fortran":
            return np.asfortranarray(v)
        if mode == "readonly":
            w = v.copy()
            w.flags.writeable = False
            return w
        if mode == "subview":
            b = np.full((3,) + v.shape, -3.3, v.dtype)
            b[1] = v
            return b[1]
        return v
    tt = t
    if mode == "intsteps":
        tt, t = int(np.ceil(t)), float(np.ceil(t))
    sc = it.scale * (1 + float(np.abs(x).max()))
    tol = 1e-9 * sc * (1 + t) if not it.iterative else 1e-5 * sc * (1 + t)
    for what in ("prox", "proxdual", "value", "grad"):
        if what == "value" and not it.value or what == "grad" and (not it.grad or "Euclid" in it.name):
            continue
        a, b = it.make(), it.make()
        y = view(x)
        keep = np.array(y, copy=True)
        if what == "value":
            u, v = a(x.copy()), b(y)
            m.ok(np.ndim(v) == 0, "the value is a number", got=v)
            with np.errstate(all="ignore"):
                m.ok(u == v or abs(float(np.real(u)) - float(np.real(v))) <= 1e-9 * (1 + abs(float(np.real(u)))), "the value does not depend on type or layout", spec=it.name, mode=mode, got=v, want=u, x=x)
        elif what == "grad":
            u, v = np.asarray(a.grad(x.copy())), np.asarray(b.grad(y))
            m.close(v, u, "the gradient does not depend on type or layout", tol * 10, spec=it.name, mode=mode, x=x)
        else:
            u, v = np.asarray(getattr(a, what)(x.copy(), t)), np.asarray(getattr(b, what)(y, tt))
            m.close(v, u, ("proximal" if what == "prox" else "dual") + " step does not depend on type or layout", tol, spec=it.name, mode=mode, x=x, tau=t)
            m.ok(mode[:3] == "int" or v.dtype == u.dtype or v.dtype.kind in "fc" and np.finfo(v.dtype).eps <= np.finfo(u.dtype).eps, "no precision is lost", spec=it.name, mode=mode, got=str(v.dtype), want=str(u.dtype))
        m.ok(np.array_equal(keep, y), "the input is left alone", spec=it.name, mode=mode)
        if m.fails:
            return
    m.event("layout:" + mode)
    m.nontrivial(it.name, mode, x.tobytes())


def shapes(m):
    """Functionals of all entries alike: an array of any shape is treated as its list of entries."""
    rng = m.rng
    P = C.P()
    shape = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(2, 4))))
    n = int(np.prod(shape))
    c = bool(rng.random() < .3)
    w, a = gen.logu(rng, .1, 4), gen.logu(rng, .2, 4)
    B = gen.vec(rng, n, 1., None, c, "normal").reshape(shape)
    R = np.real(B)
    ROWS = [  # (name, operator for arrays of the given shape, complex allowed, value, gradient)
        ("L1", lambda s: P.L1(w), 1, 1, 0), ("L1[g]", lambda s: P.L1(w, g=B.reshape(s)), 1, 1, 0), ("L0", lambda s: P.L0(w), 1, 1, 0), ("L0Ball", lambda s: P.L0Ball(min(2, n)), 1, 0, 0),
        ("Huber", lambda s: P.Huber(a), 1, 1, 0), ("HuberCircular", lambda s: P.HuberCircular(a), 1, 1, 0), ("Euclidean", lambda s: P.Euclidean(w), 1, 1, 1), ("EuclideanBall", lambda s: P.EuclideanBall(0., a), 1, 1, 0),
        ("EuclideanBall[c]", lambda s: P.EuclideanBall(B.reshape(s), a), 1, 1, 0), ("ETP", lambda s: P.ETP(w, a), 1, 1, 0), ("Geman", lambda s: P.Geman(w, a), 1, 1, 0), ("Log", lambda s: P.Log(w, a), 1, 1, 0),
        ("Log1", lambda s: P.Log1(w, a), 1, 1, 0), ("SCAD", lambda s: P.SCAD(w, 2.1 + a), 1, 1, 0), ("QuadraticEnvelopeCard", lambda s: P.QuadraticEnvelopeCard(w), 1, 1, 0), ("RelaxedMumfordShah", lambda s: P.RelaxedMumfordShah(w, a), 1, 1, 0),
        ("Box", lambda s: P.Box(-a, w), 0, 1, 0), ("Box[arrays]", lambda s: P.Box(R.reshape(s) - .5, R.reshape(s) + a), 0, 1, 0), ("L2", lambda s: P.L2(sigma=w), 1, 1, 1), ("L2[b]", lambda s: P.L2(b=B.reshape(s), sigma=w), 1, 1, 1),
        ("L1Ball", lambda s: P.L1Ball(n, a, maxiter=300, xtol=1e-13), 1, 1, 0), ("f+v", lambda s: P.L1(w) + B.reshape(s), 1, 0, 0), ("w*f", lambda s: a * P.Huber(w), 1, 1, 0), ("f(ax+b)", lambda s: P.L1(w).precomposition(-a, .3), 1, 1, 0)]
    nm, mk, cok, val, grd = ROWS[m.index % len(ROWS)]
    c = c and bool(cok)
    if not c and np.iscomplexobj(B):
        B = np.real(B).copy()
    t = gen.tau(rng)
    x = gen.vec(rng, n, 1., w * min(t, 3.), c)
    for s in (shape, shape[::-1], (n, 1), (1, n)):
        m.describe(case=nm, shape=s, x=x, tau=t, w=w, a=a)
        for what in ("prox", "proxdual", "value", "grad"):
            if what == "value" and not val or what == "grad" and (not grd or nm == "Euclidean" and not np.any(x)):
                continue
            f, g = mk((n,)), mk(s)
            X = np.ascontiguousarray(x.reshape(s))
            if what == "value":
                u, v = f(x.copy()), g(X)
                m.ok(np.ndim(v) == 0 and abs(float(np.real(u)) - float(np.real(v))) <= 1e-10 * (1 + abs(float(np.real(u)))), "the value is that of the list of entries", case=nm, shape=s, got=v, want=u, x=x)
                continue
            u, v = (np.asarray(getattr(o, what)(z, *(() if what == "grad" else (t,)))) for o, z in ((f, x.copy()), (g, X)))
            if m.ok(v.shape == s, "the answer has the shape of its input", case=nm, what=what, got=v.shape, want=s):
                m.close(v.ravel(), u, "the answer is that of the list of entries", 1e-10 * (1 + np.abs(x).max()) * (1 + (t if what == "proxdual" else 0)) + (1e-7 * (1 + np.abs(x).max()) if nm == "L1Ball" else 0),
                        case=nm, what=what, shape=s, x=x, tau=t, w=w, a=a)
            if m.fails:
                return
    m.event("shapes:" + nm)
    m.nontrivial(nm, shape, x.tobytes(), t)


def scales(m):
    """Homogeneous functionals: the same relative accuracy at every magnitude."""
    rng = m.rng
    P = C.P()
    n = int(rng.integers(1, 7))
    nd, k = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    c = bool(rng.random() < .3)
    e = int(rng.integers(-260, 260)) if rng.random() < .5 else int(rng.integers(-40, 40))
    s = 2. ** e
    w = gen.logu(rng, .1, 5)
    x = gen.vec(rng, n, 1., None, c, "normal")
    X = gen.vec(rng, nd * k, 1., None, c, "normal")
    b = gen.vec(rng, n, 1., None, c, "normal")
    r = gen.logu(rng, .2, 3)
    hw = rng.standard_normal(n)
    t = gen.logu(rng, .05, 5)
    TAB = [  # (name, operator at scale s, input, step at scale s)
        ("L1", lambda s: P.L1(sigma=w), x, lambda s: s * t), ("L1[g]", lambda s: P.L1(sigma=w, g=b * s), x, lambda s: s * t), ("Euclidean", lambda s: P.Euclidean(sigma=w), x, lambda s: s * t),
        ("L21", lambda s: P.L21(ndim=nd, sigma=w), X, lambda s: s * t), ("L21_plus_L1", lambda s: P.L21_plus_L1(sigma=w, rho=.4), X.reshape(nd, k), lambda s: s * t),
        ("Nuclear", lambda s: P.Nuclear((nd, k), sigma=w), X, lambda s: s * t), ("L2", lambda s: P.L2(sigma=w), x, lambda s: t), ("L2[b]", lambda s: P.L2(sigma=w, b=b * s), x, lambda s: t),
        ("Huber", lambda s: P.Huber(alpha=r * s), x, lambda s: s * t), ("HuberCircular", lambda s: P.HuberCircular(alpha=r * s), x, lambda s: s * t),
        ("EuclideanBall", lambda s: P.EuclideanBall(b * s, r * s), x, lambda s: t), ("L0Ball", lambda s: P.L0Ball(1), x, lambda s: t), ("L10Ball", lambda s: P.L10Ball(nd, 1), X, lambda s: t),
        ("Box", lambda s: P.Box(-r * s, .5 * r * s), np.real(x), lambda s: t), ("HalfSpace", lambda s: P.HalfSpace(hw, float(hw[0]) * s), np.real(x), lambda s: t),
        ("HalfSpace scaled normal", lambda s: P.HalfSpace(hw * np.clip(s, 2. ** -200, 2. ** 200), .3 * np.clip(s, 2. ** -200, 2. ** 200)), np.real(x) / s, lambda s: t),
        ("Hankel", lambda s: P.Hankel((nd, k)), np.real(X), lambda s: t), ("L0", lambda s: P.L0(sigma=w), x, lambda s: s * s * t if False else None),
        ("Quadratic linear", lambda s: P.Quadratic(b=b * s), x, lambda s: t),
        ("TV", lambda s: P.TV(dims=(nd + 1, k + 1), sigma=w * s, niter=15, rtol=0.), rng.standard_normal((nd + 1) * (k + 1)), lambda s: t),
    ]
    nm, mk, v, st = TAB[m.index % len(TAB)]
    if st(1.) is None:
        return
    if nm == "TV" and abs(e) > 60:
        s = 2. ** int(np.clip(e, -60, 60))
    m.describe(case=nm, exponent=e, x=v, tau=t)
    with np.errstate(all="ignore"):
        p = mk(1.).prox(v.copy() if "normal" not in nm else v * s, st(1.))
        if "scaled normal" in nm:
            # the set does not change when its description is rescaled
            q = mk(s).prox(v * s, st(s))
            m.close(q, p, "the set does not depend on the scale of its description", 1e-11 * (1 + np.abs(v * s).max()), case=nm, exponent=e, x=v)
        else:
            q = mk(s).prox(v * s, st(s)) / s
            m.close(q, p, "same relative accuracy at every magnitude", 1e-11 * (1 + np.abs(v).max()), case=nm, exponent=e, x=v, tau=t)
    m.event("scaled:" + nm)
    if np.any(p != v) and np.any(p != 0):
        m.nontrivial(nm, e, v.tobytes())


# ---------------------------------------------------------------------------------- solvers
def runs(m):
    """Solvers on degenerate data: zero data, zero start, a start that is already the answer."""
    rng = m.rng
    tab = {**S.ALL, **W.WRAPS}
    nm = list(tab)[m.index % len(tab)]
    c = nm not in S.NOCPLX and nm != "Segment" and rng.random() < .2
    run = tab[nm](rng, c)
    niter = int(rng.choice([1, 2, 7, 25]))
    zero = []
    for k, v in run.arrays.items():
        if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and rng.random() < .5 and "palm" not in nm.lower() and v.flags.writeable and k in ("x0", "b", "z0", "y0", "z"):
            v[...] = 0
            zero.append(k)
    m.describe(solver=nm, niter=niter, zeroed=zero, opts=run.opts)
    try:
        with np.errstate(all="ignore"):
            seen, res = S.trace(run, niter)[:2]
            if "PALM" in nm.upper() or nm == "Bregman":
                # may diverge by nature for the drawn steps: the textbook run tells
                want = S.ref_trace(run, niter)[0]
                if len(want) < len(seen) or any(not np.all(np.isfinite(a)) or np.abs(a).max(initial=0) > 1e30 for w_ in want for a in w_):
                    m.event("divergent by nature")
                    return
    except ZeroDivisionError:
        if "PALM" in nm.upper():
            m.event("degenerate factor")
            return
        raise
    for i, s in enumerate(seen):
        for a in s:
            m.ok(np.all(np.isfinite(a)), "iterates are finite", solver=nm, iterate=i + 1, zeroed=zero, got=a)
            if not c:
                m.ok(not np.iscomplexobj(a), "iterates of a real problem are real", solver=nm, got=str(np.asarray(a).dtype))
        if m.fails:
            return
    m.event("runs: " + nm)
    m.event("iterates", len(seen))
    if zero:
        m.event("degenerate runs")
    if seen:
        m.nontrivial(nm, str(zero), niter, np.asarray(seen[-1][0]).tobytes())


def ulps(a, b, same):
    """Neighbouring floats a < b such that same(a) and not same(b)."""
    for _ in range(80):
        c = a + (b - a) / 2
        if c <= a or c >= b:
            break
        if same(c):
            a = c
        else:
            b = c
    return a, b


SCALAR = ["Log1", "L1", "L0", "Log1", "ETP", "Geman", "Log", "Log1", "SCAD", "QuadraticEnvelopeCard", "RelaxedMumfordShah", "Huber", "HuberCircular", "Euclidean", "L21"]


def thresholds(m):
    """Around every point where a scalar step changes branch: finite, between zero and the input, never decreasing."""
    rng, P = m.rng, C.P()
    nm = SCALAR[m.index % len(SCALAR)]
    s, q = gen.logu(rng, .01, 50), gen.logu(rng, .01, 20)
    sep = True
    if nm in ("L1", "L0"):
        op = getattr(P, nm)(s)
    elif nm in ("ETP", "Geman", "Log"):
        op = getattr(P, nm)(s, q)
    elif nm == "Log1":
        op = P.Log1(s, float(rng.choice([1e-10, 1e-4, q])))
    elif nm == "SCAD":
        op = P.SCAD(s, 2 + q)
    elif nm == "QuadraticEnvelopeCard":
        op = P.QuadraticEnvelopeCard(s)
    elif nm == "RelaxedMumfordShah":
        op = P.RelaxedMumfordShah(s, q)
    elif nm in ("Huber", "HuberCircular"):
        op, sep = getattr(P, nm)(s), nm == "Huber"
    elif nm == "Euclidean":
        op, sep = P.Euclidean(s), False
    else:
        op, sep = P.L21(1, s), True
    t = gen.logu(rng, .01, 50)
    cplx = rng.random() < .3
    ph = np.exp(1j * rng.uniform(0, 6.3)) if cplx else float(rng.choice([1., -1.]))
    m.describe(op=nm, sigma=s, second=q, tau=t, complex=bool(cplx))

    def step(v):
        v = np.atleast_1d(np.asarray(v, float))
        if sep:
            return np.asarray(op.prox(v * ph, t))
        return np.concatenate([np.asarray(op.prox(np.array([a]) * ph, t)) for a in v])
    zero = lambda a: not np.any(step(a))
    fixed = lambda a: np.array_equal(step(a), np.atleast_1d(a) * ph)
    far = 1e3 * (1 + s + q) * (1 + t)
    marks = []
    with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
        if zero(1e-9) and not zero(far):
            marks.append(ulps(1e-9, far, zero)[1])
        if fixed(far) and not fixed(1e-6):
            marks.append(ulps(1e-6, far, lambda a: not fixed(a))[1])
        marks.append(gen.logu(rng, 1e-3, 30))
        for c in marks:
            k = np.arange(-24, 25)
            v = c * (1 + k * np.finfo(float).eps)
            v = np.concatenate([v, c * (1 + k * 1e-9), c * (1 + k * 1e-2)])
            v = np.unique(v[v > 0])
            r = step(v)
            judge(m, r, v * ph, "proximal step next to a threshold", not cplx, op=nm, sigma=s, second=q, tau=t, at=c)
            if m.fails:
                return
            g = np.real(r * np.conj(ph))
            e = 1e-7 if nm in ("ETP", "Geman", "Log") else 1e-12
            if nm == "Log1":        # the documented formula jumps from the stationary point: rounding of the root at its threshold
                e = 1e-6
            m.ok(np.all(g >= -e * c) and np.all(g <= v * (1 + 1e-12)), "proximal step next to a threshold lies between zero and the input", op=nm, sigma=s, second=q, tau=t, at=c, low=float(g.min()), over=float((g - v).max()))
            g = g[np.abs(v / c - 1) > 5e-10]        # closer, two branches tie up to rounding
            m.ok(np.all(np.diff(g) >= -e * (1 + c)), "proximal step next to a threshold never decreases", op=nm, sigma=s, second=q, tau=t, at=c, worst=float(np.diff(g).min()))
            m.event("thresholds")
            m.event("points at thresholds", len(v))
            m.nontrivial(nm, s, q, t, c)


GROUPS = [("operators", operators, 3000, 40000), ("degenerate", degenerate, 2000, 30000), ("layouts", layouts, 2400, 40000), ("shapes", shapes, 700, 10000), ("scales", scales, 800, 12000), ("runs", runs, 600, 6000),
          ("thresholds", thresholds, 6000, 60000)]
