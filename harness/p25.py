"""P25: the verification utilities are themselves verified, by injecting faults they must expose."""
import contextlib
import io

import numpy as np

import catalog as C
import gen
import p07
import solvers as S
import zoo as Z

PROP = "P25"
RULE = ("one case = one operator, one (or no) injected fault and up to 200 random draws of a checker, with every verdict, exception, printed line and evaluated point recorded "
        "and compared with the size of the injected fault; non-trivial when verdicts were observed")

FAULTS = ("none", "within", "beyond", "flip", "zero", "scale", "nan", "inf", "one", "stale", "half")


@contextlib.contextmanager
def quiet(buf):
    with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
        yield


def call(m, fn, exc, raiseerror, verb, what):
    """Run a checker; returns its verdict after checking how it was reported."""
    buf = io.StringIO()
    try:
        with quiet(buf):
            r = fn()
        m.ok(isinstance(r, (bool, np.bool_)), what + ": returns a flag", got=type(r).__name__)
        r = bool(r)
        m.ok(r or not raiseerror, what + ": a failure is raised when asked for", verdict=r)
    except exc as e:
        m.ok(raiseerror, what + ": failures are only raised when asked for", error=str(e))
        r = False
    out = buf.getvalue()
    if verb and (r or not raiseerror):
        m.ok(bool(out.strip()), what + ": reports when asked to")
    if not verb:
        m.ok(not out, what + ": silent unless asked", out=out)
    m.event("verdicts")
    m.event("verdict:" + ("pass" if r else "fail"))
    return r


def inject(fault, g, prev, allow, j):
    """A gradient with a fault of known size; allow(g) is what the tolerances permit per component."""
    g = np.array(g, copy=True)
    g = g.astype(complex) if np.iscomplexobj(g) else g.astype(float)
    ph = (1 + 1j) if np.iscomplexobj(g) else 1.0
    if fault == "within":
        return g + .2 * allow * ph
    if fault == "beyond":
        return g + 4 * allow * ph
    if fault == "flip":
        return -g
    if fault == "zero":
        return 0 * g
    if fault == "scale":
        return 2 * g
    if fault == "half":
        return .5 * g
    if fault == "nan":
        return g * np.nan
    if fault == "inf":
        return g + np.inf * np.sign(np.real(ph)) if not np.iscomplexobj(g) else np.full(g.shape, complex(np.inf, np.inf))
    if fault == "one":
        g[j] = g[j] + 5 * allow.max() * ph
        return g
    if fault == "stale":
        return np.array(prev, copy=True)
    return g


_cls = {}


def wrapped(spec_f, spec_g, log):
    if not _cls:
        from pyproximal.ProxOperator import ProxOperator

        class Op(ProxOperator):
            def __init__(self, f, g, log):
                super().__init__(None, True)
                self.f, self.g, self.log = f, g, log

            def __call__(self, x):
                self.log.append(("f", np.array(x, copy=True)))
                return self.f(x)

            def grad(self, x):
                self.log.append(("g", np.array(x, copy=True)))
                return self.g(x)
        _cls["c"] = Op
    return _cls["c"](spec_f, spec_g, log)


def smooth(rng, cplx):
    n = int(rng.integers(1, 7))
    if rng.random() < .3:
        # a functional of the user: not quadratic
        a = rng.random(n) + .2
        s = C.Spec("user:logcosh-like", None, n, lambda x: float(np.sum(a * np.sqrt(1 + np.abs(x) ** 2))), cplx=cplx,
                   grad=lambda x: a * x / np.sqrt(1 + np.abs(x) ** 2))
        return s
    for _ in range(20):
        nm = list(p07.GR)[int(rng.integers(0, len(p07.GR)))]
        s = p07.GR[nm](rng, cplx=cplx and nm in C.COMPLEX_OK)
        if s.grad is not None and s.f is not None and len(s.shape) == 1 and "Euclidean" not in s.name:
            return s
    return C.g_l2(rng, cplx)


def gradients(m):
    """gradtest_proximal with a supplied point."""
    from pyproximal.utils.gradtest import gradtest_proximal
    rng = m.rng
    s = smooth(rng, m.index % 3 == 0)
    n = s.n
    cplx = s.cplx
    x = s.draw(rng, 1.0, kind="normal") if s.make is not None else S.vec(rng, n, cplx)
    if cplx and not np.iscomplexobj(x):
        x = x.astype(complex)
    cplx = np.iscomplexobj(x)
    prev = S.vec(rng, n, cplx) if s.make is None else s.draw(rng, 1.0, kind="normal")
    delta = float(rng.choice([1e-6, 1e-5, 1e-4]))
    fx, g = s.f(x), np.array(np.broadcast_to(s.grad(x), x.shape))
    if cplx:
        g = g.astype(complex)
    # what the finite difference itself gets wrong, per component and part
    E = 0.0
    for i in range(n):
        for p in ((1, 1j) if cplx else (1,)):
            y = x.copy()
            y[i] += p * delta
            num = (s.f(y) - fx) / delta
            ana = g[i].imag if p == 1j else np.real(g[i])
            E = max(E, abs(num - ana))
    E += 1e-14 * (1 + abs(fx)) * n / delta
    rtol = float(rng.choice([0., 1e-6, 1e-3]))
    atol = 6 * E + 1e-7 * max(1, float(np.abs(g).max()))
    fault = FAULTS[(m.index // 3) % len(FAULTS)]
    allow = atol + rtol * np.maximum(np.abs(g.real), np.abs(g.imag)) * 1.01
    j = int(rng.integers(0, n))
    gp = np.array(np.broadcast_to(s.grad(prev), x.shape))
    bad = inject(fault, g, gp, allow, j)
    parts = lambda v: np.concatenate([np.real(v), np.imag(v)]) if cplx else np.real(v)
    with np.errstate(all="ignore"):
        err = np.abs(parts(bad) - parts(g))
        lim = atol + rtol * np.nan_to_num(np.abs(parts(bad)), posinf=0)
    sure_fail = np.all((err > 1.5 * lim + E) | ~np.isfinite(err))
    sure_pass = np.all(err <= .7 * lim - E)
    some_fail = np.any((err > 1.5 * lim + E) | ~np.isfinite(err))
    log = []
    lib_f = s.make() if s.make is not None and rng.random() < .5 else None
    op = wrapped(lib_f or s.f, (lambda v: bad.copy()) if fault != "none" or lib_f is None else lib_f.grad, log)
    m.describe(spec=s.name, cfg=s.cfg, fault=fault, delta=delta, rtol=rtol, atol=atol, x=x)
    keep = x.copy()
    raiseerror, verb = bool(rng.random() < .5), bool(rng.random() < .3)
    N = 200 if (some_fail and not sure_fail) else 8
    res = []
    touched = set()
    for _ in range(N):
        del log[:]
        r = call(m, lambda: gradtest_proximal(op, n, x=x, delta=delta, rtol=rtol, atol=atol, complexflag=cplx, raiseerror=raiseerror, verb=verb), AssertionError, raiseerror, verb, "gradient checker")
        res.append(r)
        if not m.ok(np.array_equal(x, keep), "the supplied point is left alone", before=keep, after=x):
            return
        for kind, y in log:
            d = y - keep
            for i in np.flatnonzero(d):
                touched.add((int(i), bool(abs(d[i].imag) > abs(d[i].real))))
        if sure_pass:
            m.ok(r, "a correct gradient is accepted", fault=fault, atol=atol, rtol=rtol, E=E, x=x, g=g, bad=bad, spec=s.name)
        elif sure_fail:
            m.ok(not r, "a wrong gradient is reported on every draw", fault=fault, atol=atol, rtol=rtol, x=x, g=g, bad=bad, spec=s.name)
        if m.fails:
            return
    if N == 200 and some_fail and err[np.isfinite(err)].size:
        # a fault in some components: each part of each component is drawn with probability 1/n or 1/(2n)
        m.ok(not all(res), "a gradient wrong in one component is reported by some draw", fault=fault, g=g, bad=bad, x=x)
        if n <= 6:
            want = {(i, p) for i in range(n) for p in ((False, True) if cplx else (False,))}
            m.ok(touched >= want, "every parameter is tested sooner or later", missing=sorted(want - touched))
    m.event("fault:" + fault)
    m.nontrivial(s.name, fault, x.tobytes())


def drawn(m):
    """gradtest_proximal drawing its own points, in both precisions."""
    from pyproximal.utils.gradtest import gradtest_proximal
    rng = m.rng
    n = int(rng.integers(1, 9))
    cplx = bool(rng.random() < .4)
    dt = ["float64", "float32"][int(rng.integers(0, 2))]
    w = rng.random(n) + .2
    b = S.vec(rng, n, cplx)
    fault = ("none", "flip", "scale", "zero", "plus")[m.index % 5]
    f = lambda x: .5 * float(np.sum(w * np.abs(x.astype(complex if cplx else float) - b) ** 2))
    ph = 1 + 1j if cplx else 1.
    G = lambda x: w * (x.astype(complex if cplx else float) - b)
    gr = dict(none=G, flip=lambda x: -G(x), scale=lambda x: 2 * G(x), zero=lambda x: 0 * G(x), plus=lambda x: G(x) + .5 * ph)[fault]
    delta = 2. ** -10
    # atol covers the curvature and the rounding of the stored point
    atol = delta + (2e-2 if dt == "float32" else 1e-6)
    log = []
    op = wrapped(f, gr, log)
    re = bool(rng.random() < .5)
    xs = []
    for _ in range(10):
        del log[:]
        old = np.random.get_state()
        r = call(m, lambda: gradtest_proximal(op, n, dtype=dt, delta=delta, rtol=1e-6, atol=atol, complexflag=cplx, raiseerror=re), AssertionError, re, False, "gradient checker")
        x = log[0][1]
        xs.append(x.tobytes())
        m.ok(x.shape == (n,), "the drawn point has the requested size", got=x.shape, n=n)
        m.ok(np.iscomplexobj(x) == cplx, "the drawn point is complex on request", got=str(x.dtype))
        m.ok(x.real.dtype == np.dtype(dt), "the drawn point has the requested precision", got=str(x.dtype), want=dt)
        if cplx:
            m.ok(np.any(x.imag != 0), "the drawn point has an imaginary part")
        g = G(x)
        wrong = np.abs(np.concatenate([(gr(x) - g).real, (gr(x) - g).imag] if cplx else [(gr(x) - g).real]))
        if fault == "none":
            m.ok(r, "a correct gradient is accepted", dtype=dt, x=x, atol=atol)
        elif wrong.min() > 4 * atol:
            m.ok(not r, "a wrong gradient is reported on every draw", fault=fault, dtype=dt, x=x, g=g, atol=atol)
            m.event("wrong everywhere")
    m.ok(len(set(xs)) == len(xs), "every test draws a new point")
    m.event("drawn points", len(xs))
    m.nontrivial(n, cplx, dt, fault)


def bilinear(m):
    from pyproximal.utils.gradtest import gradtest_bilinear
    rng = m.rng
    cplx = bool(rng.random() < .4)
    b, make, X, Y = S.userbilinear(rng, cplx) if rng.random() < .4 else S.bilinear(rng, cplx)
    op = make()
    x, y = X.ravel().copy(), Y.ravel().copy()
    nx, ny = x.size, y.size
    fx = b.f(x, y)
    gx, gy = b.gx(x, y), b.gy(x, y)
    delta = float(rng.choice([1e-6, 1e-5, 1e-4]))
    E = 0.
    for v, g, ev in ((x, gx, lambda v: b.f(v, y)), (y, gy, lambda v: b.f(x, v))):
        for i in range(v.size):
            for p in ((1, 1j) if cplx else (1,)):
                w = v.copy()
                w[i] += p * delta
                E = max(E, abs((ev(w) - fx) / delta - (g[i].imag if p == 1j else np.real(g[i]))))
    E += 1e-14 * (1 + abs(fx)) * (nx + ny) / delta
    rtol = float(rng.choice([0., 1e-6, 1e-3]))
    atol = 6 * E + 1e-7 * max(1, float(np.abs(gx).max()), float(np.abs(gy).max()))
    fault = FAULTS[m.index % len(FAULTS)]
    where = ("both", "x", "y")[(m.index // len(FAULTS)) % 3] if fault != "one" else ("x", "y")[(m.index // len(FAULTS)) % 2]
    allowx = atol + rtol * np.maximum(np.abs(gx.real), np.abs(gx.imag)) * 1.01
    allowy = atol + rtol * np.maximum(np.abs(gy.real), np.abs(gy.imag)) * 1.01
    sx, sy = S.vec(rng, nx, cplx), S.vec(rng, ny, cplx)
    bx = inject(fault, gx, b.gx(sx, sy), allowx, int(rng.integers(0, nx))) if where != "y" else gx
    by = inject(fault, gy, b.gy(sx, sy), allowy, int(rng.integers(0, ny))) if where != "x" else gy
    if fault != "none":
        op.gradx = lambda v: bx.copy()
        op.grady = lambda v: by.copy()
    parts = lambda v: np.concatenate([np.real(v), np.imag(v)]) if cplx else np.real(v)
    bad, g = np.concatenate([parts(bx), parts(by)]), np.concatenate([parts(gx), parts(gy)])
    with np.errstate(all="ignore"):
        err = np.abs(bad - g)
        lim = atol + rtol * np.nan_to_num(np.abs(bad), posinf=0)
    wrong = (err > 1.5 * lim + E) | ~np.isfinite(err)
    sure_fail, some_fail, sure_pass = wrong.all(), wrong.any(), np.all(err <= .7 * lim - E)
    raiseerror, verb = bool(rng.random() < .5), bool(rng.random() < .3)
    m.describe(kind=type(b).__name__, fault=fault, where=where, delta=delta, atol=atol, rtol=rtol)
    # wrong parts have probability at least 1 / (4 max(nx, ny)) each
    N = min(700, 35 * 4 * max(nx, ny)) if (some_fail and not sure_fail) else 8
    seen = set()
    ox = op.__class__.__call__

    class Spy(op.__class__):
        def __call__(self, a, c=None):
            v = np.concatenate([np.ravel(a), np.ravel(c)]) if c is not None else np.ravel(a)
            d = v - np.concatenate([x, y])
            for i in np.flatnonzero(d):
                seen.add((int(i), bool(abs(d[i].imag) > abs(d[i].real))))
            return ox(self, a, c)
    op.__class__ = Spy
    res = []
    kx, ky = np.array(op.x, copy=True), np.array(op.y, copy=True)
    for _ in range(N):
        r = call(m, lambda: gradtest_bilinear(op, delta=delta, rtol=rtol, atol=atol, complexflag=cplx, raiseerror=raiseerror, verb=verb), AssertionError, raiseerror, verb, "bilinear gradient checker")
        res.append(r)
        if not m.ok(np.shape(op.x) == kx.shape and np.shape(op.y) == ky.shape and np.array_equal(op.x, kx) and np.array_equal(op.y, ky), "the bilinear model is left as it was", x=op.x, kx=kx, y=op.y, ky=ky):
            return
        if sure_pass:
            m.ok(r, "correct gradients are accepted", fault=fault, where=where, atol=atol, rtol=rtol, E=E, bad=bad, g=g)
        elif sure_fail:
            m.ok(not r, "wrong gradients are reported on every draw", fault=fault, where=where, atol=atol, bad=bad, g=g)
        if m.fails:
            return
    if N > 8:
        m.ok(not all(res), "gradients wrong in one block or component are reported by some draw", fault=fault, where=where, bad=bad, g=g, N=N)
        if not wrong.all() and (~wrong).sum() * 2 >= wrong.size and np.all(err[~wrong] <= .7 * lim[~wrong] - E):
            m.ok(any(res), "a draw that only meets correct components is accepted", fault=fault, where=where, bad=bad, g=g, N=N)
        if 35 * 4 * max(nx, ny) <= 700:
            want = {(i, p) for i in range(nx + ny) for p in ((False, True) if cplx else (False,))}
            m.ok(seen >= want, "every parameter is tested sooner or later", missing=sorted(want - seen))
    m.event("fault:" + fault + " in " + where)
    m.nontrivial(fault, where, x.tobytes())


def identity(m):
    """moreau on library operators with an exact dual, intact or with a fault of known size."""
    from pyproximal.utils.moreau import moreau
    from pyproximal.ProxOperator import ProxOperator
    rng = m.rng
    s = C.pick(m, {k: v for k, v in {**C.CONVEX, **C.SETS}.items()}, .3)
    tau = gen.tau(rng) if s.extreme else gen.logu(rng, .2, 4)
    tau = float(np.clip(tau, 1e-3, 1e3))
    x = s.draw(rng, tau, kind="normal")
    op = s.make()
    if s.prox is None:
        p = None
        pd = None
    tol = float(rng.choice([1e-8, 1e-5, 1e-2])) if s.acc <= 1e-12 else 1e-2
    keep = x.copy()
    arrs = {k: np.array(v, copy=True) for k, v in s.arrays.items() if isinstance(v, np.ndarray)}
    raiseerror, verb = bool(rng.random() < .5), bool(rng.random() < .25)
    with np.errstate(all="ignore"):
        p = np.asarray(op.prox(x.copy(), tau))
        q = np.asarray(op.proxdual(x / tau, 1. / tau))
    E = float(np.abs(p + tau * q - x).max())
    sc = s.scale(x)
    m.describe(spec=s.name, cfg=s.cfg, tau=tau, tol=tol, x=x)
    r = call(m, lambda: moreau(op, x, tau, tol=tol, raiseerror=raiseerror, verb=verb), ValueError, raiseerror, verb, "Moreau checker")
    if E < .3 * tol:
        m.ok(r, "an operator whose dual matches is accepted", E=E, tol=tol, spec=s.name, cfg=s.cfg, x=x, tau=tau)
    m.ok(np.array_equal(x, keep), "the supplied point is left alone")
    for k, v in arrs.items():
        m.ok(np.array_equal(s.arrays[k], v, equal_nan=True), "the operator is left alone", array=k)

    # a fault of known size in the step or in the dual
    lim = tol + 1e-5 * float(np.abs(x).max()) + E
    amt = {"within": .2 * tol, "beyond": 5 * lim}
    for fault in ("within", "beyond", "one", "nan", "swap", "step", "sign", "conj"):
        side = "prox" if rng.random() < .3 else "dual"
        j = tuple(int(rng.integers(0, k)) for k in x.shape)
        e = np.zeros(x.shape)
        if fault in amt:
            e = np.full(x.shape, amt[fault])
        elif fault == "one":
            e[j] = 5 * lim
        elif fault == "nan":
            e[j] = np.nan
        if np.iscomplexobj(x) and rng.random() < .5:
            e = e * 1j
        if fault == "within" and E > .1 * tol:
            continue

        class Op(ProxOperator):
            def __init__(self):
                super().__init__(None, False)

            def __call__(self, v):
                return 0.

            def prox(self, v, t):
                a = np.asarray(op.prox(v, t))
                return a + e if side == "prox" and fault in ("within", "beyond", "one", "nan") else a

            def proxdual(self, v, t):
                if fault == "swap":
                    return np.asarray(op.proxdual(v, 1. / t))
                if fault == "step":
                    return np.asarray(op.proxdual(v, 2 * t))
                a = np.asarray(op.proxdual(v, t))
                if fault == "sign":
                    return -a
                if fault == "conj":
                    return np.conj(a)
                return a + e / tau if side == "dual" and fault in ("within", "beyond", "one", "nan") else a
        o = Op()
        with np.errstate(all="ignore"):
            tot = np.asarray(o.prox(x.copy(), tau)) + tau * np.asarray(o.proxdual(x / tau, 1. / tau))
            d = np.abs(tot - x)
        r = call(m, lambda: moreau(o, x, tau, tol=tol, raiseerror=raiseerror, verb=verb), ValueError, raiseerror, verb, "Moreau checker")
        bound = tol + 1e-5 * np.abs(tot)
        slack = 10 * E + 1e-12 * sc if s.acc <= 1e-12 else 10 * E + 1e-2 * tol
        if np.any(d > 1.5 * np.maximum(bound, tol + 1e-5 * np.abs(x)) + slack) or np.any(np.isnan(d)):
            m.ok(not r, "an operator whose dual does not match is reported", fault=fault, side=side, error=d, tol=tol, spec=s.name, tau=tau, x=x)
            m.event("fault reported:" + fault)
        elif np.all(d <= .7 * tol - slack):
            m.ok(r, "a mismatch within the tolerance is accepted", fault=fault, side=side, error=d, tol=tol, spec=s.name, tau=tau)
            m.event("fault tolerated:" + fault)
        if m.fails:
            return
    m.nontrivial(s.name, tau, x.tobytes())


def scalars(m):
    """Tolerances of the Moreau checker, probed with an operator whose mismatch is a chosen number."""
    from pyproximal.utils.moreau import moreau
    from pyproximal.ProxOperator import ProxOperator
    rng = m.rng
    cplx = bool(rng.random() < .4)
    n = int(rng.integers(1, 6))
    x = S.vec(rng, n, cplx)
    w = float(rng.random())
    tau = float(np.clip(gen.tau(rng), 1e-3, 1e3))
    tol = float(10 ** rng.uniform(-9, 0))
    u = S.vec(rng, n, cplx)
    for f in (0., .5, 3., 1e3):
        k = int(rng.integers(0, n))
        e = np.zeros(n, complex if cplx else float)
        e[k] = f * (tol + 1e-5 * abs(x[k]) * (f > 1)) * (np.exp(2j * np.pi * rng.random()) if cplx else rng.choice([-1., 1.]))

        class Op(ProxOperator):
            def __init__(self):
                super().__init__(None, False)

            def __call__(self, v):
                return 0.

            def prox(self, v, t):
                return w * v + u * t

            def proxdual(self, v, t):
                return (1 - w) * v - u + e * t
        re, vb = bool(rng.random() < .5), bool(rng.random() < .3)
        r = call(m, lambda: moreau(Op(), x, tau, tol=tol, raiseerror=re, verb=vb), ValueError, re, vb, "Moreau checker")
        if f > 1 and abs(e[k]) > 1e-10 * (1 + np.abs(u).max()) * max(1, tau):
            m.ok(not r, "a mismatch in one entry beyond the tolerance is reported", f=f, tol=tol, x=x, e=e, tau=tau)
        elif f < 1 and tol > 1e-10 * (1 + np.abs(u).max()) * max(1, tau):
            m.ok(r, "a mismatch within the tolerance is accepted", f=f, tol=tol, x=x, e=e, tau=tau)
    # defaults: errors raise, nothing printed
    r = call(m, lambda: moreau(Op(), x, tau), ValueError, True, False, "Moreau checker")
    m.nontrivial(x.tobytes(), tau, tol)


GROUPS = [("gradients", gradients, 990, 12000), ("drawn", drawn, 450, 5000), ("bilinear", bilinear, 660, 8000), ("identity", identity, 900, 12000), ("scalars", scalars, 600, 8000)]
