"""P20: quantities that must never move the wrong way, observed iterate by iterate."""
import numpy as np

import catalog as C
import gen
import p19
import solvers as S

PROP = "P20"
RULE = ("one case = one run of 2 to 60 iterations with a monotone quantity (objective, penalised objective, distance to an independently certified solution, backtracked step, "
        "sufficient decrease) evaluated after every iteration from hooked state; non-trivial when the quantity strictly moved at least twice")


class Log:
    def __init__(self):
        self.ev = []

    def mark(self):
        self.ev.append(("mark",))


_rec = {}


def record(spec, log, name):
    """Make every operator built from spec (library's or the harness's own) log its calls."""
    if not _rec:
        from pyproximal.ProxOperator import ProxOperator

        class Rec(ProxOperator):
            def __init__(self, op, log, name):
                super().__init__(None, op.hasgrad)
                self.op, self.log, self.name = op, log, name

            def __call__(self, x):
                return self.op(x)

            def prox(self, x, tau):
                x0 = np.array(x, copy=True)
                r = self.op.prox(x, tau)
                self.log.ev.append(("prox", self.name, x0, tau, np.array(r, copy=True)))
                return r

            def proxdual(self, x, tau):
                x0 = np.array(x, copy=True)
                r = self.op.proxdual(x, tau)
                self.log.ev.append(("proxdual", self.name, x0, tau, np.array(r, copy=True)))
                return r

            def grad(self, x):
                self.log.ev.append(("grad", self.name, np.array(x, copy=True)))
                return self.op.grad(x)
        _rec["c"] = Rec
    mk, ref = spec.make, S.refop
    inner = C.Spec(spec.name, mk, spec.n, spec.f, spec.prox, grad=spec.grad)
    if mk is not None:
        spec.make = lambda: _rec["c"](mk(), log, name)
    if spec.prox is None:
        return spec.make
    return lambda: _rec["c"](ref(inner), log, name)


class Logged:
    """Context: S.lib hands out logged operators."""

    def __init__(self, names):
        self.names = names

    def __enter__(self):
        self.old = S.lib
        logs = self.names

        def lib(u, s):
            for k, (spec, user) in logs.items():
                if s is spec:
                    return user() if u else s.make()
            return self.old(u, s)
        S.lib = lib

    def __exit__(self, *a):
        S.lib = self.old


def down(m, seq, what, scale, tol=1e-9, **kw):
    moved = 0
    for k in range(1, len(seq)):
        a, b = seq[k - 1], seq[k]
        if not (np.isfinite(a) and np.isfinite(b)):
            if np.isfinite(a) and not np.isfinite(b):
                m.ok(False, what, step=k, before=a, after=b, **kw)
            continue
        m.le(b, a, what, tol * (scale + abs(a)), step=k, **kw)
        moved += b < a - 1e-12 * (scale + abs(a))
    return moved


def nsteps(rng):
    return int(rng.choice([2, 3, 5, 10, 25, 60]))


# ------------------------------------------------------------------ objective
def gradient(m):
    """Unaccelerated proximal gradient: objective, sufficient decrease, steps."""
    rng = m.rng
    g = None
    cplx = bool(rng.random() < .2)
    u = rng.random()
    if u < .35:
        g = p19.nonsmooth(rng, cplx)
    elif u < .6 and not cplx:
        k = str(rng.choice(["ETP", "Geman", "Log", "SCAD", "QuadraticEnvelopeCard", "SingularValuePenalty"]))
        g = C.ALL[k](rng, cplx=False)
        if len(g.shape) > 1 or not np.isfinite(g.f(np.ones(g.n))):
            g = None
    for _ in range(40):
        run = S.b_proximalgradient(rng, cplx, g)
        if run.opts["acc"] in (None, "None") or m.index % 4 == 0:
            break
    o = run.opts
    f, gs, e = run.data["f"], run.data["g"], run.data["eps"]
    plain = o["acc"] in (None, "None")
    log = Log()
    names = {"f": (f, record(f, log, "f")), "g": (gs, record(gs, log, "g"))}
    N = nsteps(rng)
    xs = [np.asarray(run.x0, dtype=complex if np.iscomplexobj(run.x0) else float).copy()]
    m.describe(**{k: v for k, v in o.items()})

    def cb(x):
        xs.append(np.array(x, copy=True))
        log.mark()
    with Logged(names):
        run.call(N, cb, False, tol=None)
    back = o["backtracking"] or o["tau"] is None
    # split the event log into iterations
    its, cur = [], []
    for ev in log.ev:
        if ev[0] == "mark":
            its.append(cur)
            cur = []
        else:
            cur.append(ev)
    accepted = []
    last = np.inf
    eps = None if e is None else float(e)
    for k, it in enumerate(its):
        pr = [v for v in it if v[0] == "prox" and v[1] == "g"]
        gr = [v for v in it if v[0] == "grad" and v[1] == "f"]
        m.ok(len(pr) >= 1 and len(gr) >= 1, "every iteration takes a gradient and a proximal step", iteration=k)
        if m.fails:
            return
        accepted.append(True)
        if eps is None:
            continue
        ts = [float(np.max(v[3])) / eps for v in pr]
        if back:
            for a, b in zip([last] + ts[:-1], ts):
                m.le(b, a, "backtracked steps never grow", 1e-12 * b, iteration=k, opts=o)
            y, z, T = gr[-1][2], pr[-1][4], ts[-1]
            d = z - y
            fy, fz = f.f(y), f.f(z)
            bound = fy + C.rdot(f.grad(y), d) + float(np.sum(np.abs(d) ** 2)) / (2 * T)
            accepted[-1] = len(pr) < o["niterback"] or fz <= bound
            if len(pr) < o["niterback"]:
                m.le(fz, bound, "an accepted step satisfies the sufficient decrease", 1e-9 * (1 + abs(fy) + abs(fz)), iteration=k, opts=o)
                m.event("accepted backtracked steps")
            m.event("backtracking rejections", len(pr) - 1)
            last = ts[-1]
        else:
            for t in ts:
                m.close(t, o["tau"], "the given step is used", 1e-9 * t, iteration=k, opts=o)
    if not plain or eps is None or (gs.ind and o["eta"] < 1) or (not gs.cvx and o["eta"] < 1):
        m.event("objective not judged")
        if len(xs) > 3:
            m.nontrivial(xs[-1].tobytes(), str(o))
        return
    J = lambda x: f.f(x) + (0. if gs.ind else eps * gs.f(x))
    v = [J(x) for x in xs]
    if gs.ind and gs.dist is not None and gs.dist(xs[0]) > 0 or gs.ind:
        v, acc = v[1:], accepted[1:]
    else:
        acc = accepted
    sc = 1 + max(np.abs(x).max() for x in xs) ** 2 * f.L
    moved = 0
    for k in range(1, len(v)):
        if acc[k - 1]:
            m.le(v[k], v[k - 1], "proximal gradient never increases the objective", (1e-9 + (1e-7 if gs.acc > 1e-9 else 0)) * (sc + abs(v[k - 1])), step=k, opts=o, g=gs.name, cfg=gs.cfg)
            moved += v[k] < v[k - 1]
    m.event("objective steps", len(v) - 1)
    if moved > 1:
        m.nontrivial(xs[-1].tobytes(), str(o))


def alternating(m):
    rng = m.rng
    cplx = bool(rng.random() < .2)
    run = S.b_palm(rng, cplx)
    b, pf, pg = run.data["b"], run.data["pf"], run.data["pg"]
    o = run.opts
    log = Log()
    names = {}
    for nm, s in (("f", pf), ("g", pg)):
        if s is not None:
            names[nm] = (s, record(s, log, nm))
    N = nsteps(rng)
    seen = []
    m.describe(**o)

    def cb(x, y):
        seen.append((np.array(x, copy=True), np.array(y, copy=True)))
        log.mark()
    try:
        with Logged(names):
            run.call(N, cb, False)
    except ZeroDivisionError:       # a vanished factor has no linearisation constant
        m.event("factor vanished")
    val = lambda s, x: 0. if s is None or s.ind else s.f(x)
    x0, y0 = run.arrays["x0"], run.arrays["y0"]
    seq = [b.f(x0, y0) + val(pf, x0) + val(pg, y0)] if not any(s is not None and s.ind for s in (pf, pg)) else []
    first = len(seq) == 0
    pts = ([] if first else [(x0, y0)]) + seen
    its, cur = [], []
    for ev in log.ev:
        if ev[0] == "mark":
            its.append(cur)
            cur = []
        else:
            cur.append(ev)
    taus = {"f": np.inf, "g": np.inf}
    good = []
    for it in its:
        ok = True
        for nm, gam in (("f", o["gammaf"]), ("g", o["gammag"])):
            pr = [v for v in it if v[0] == "prox" and v[1] == nm]
            if gam is None and pr:
                for v in pr:
                    m.le(float(v[3]), taus[nm], "backtracked steps never grow", 1e-12 * float(v[3]), block=nm)
                    taus[nm] = float(v[3])
                ok &= len(pr) < o["niterback"]
                m.event("alternating rejections", len(pr) - 1)
        if o["niterback"] < 50 and (o["gammaf"] is None or o["gammag"] is None) and len(names) < 2:
            ok = False           # whether the step was accepted is not visible
        good.append(ok)
    v = [b.f(x, y) + val(pf, x) + val(pg, y) for x, y in pts]
    moved = 0
    for k in range(1, len(v)):
        j = k if first else k - 1
        if good[j] and np.isfinite(v[k - 1]):
            sc = 1 + max(np.abs(pts[k][0]).max(), np.abs(pts[k][1]).max(), np.abs(pts[k - 1][0]).max(), np.abs(pts[k - 1][1]).max()) ** 4
            m.le(v[k], v[k - 1], "alternating minimisation never increases the objective", 1e-9 * (sc + abs(v[k - 1])), step=k, opts=o)
            moved += v[k] < v[k - 1]
    m.event("alternating steps", len(v) - 1)
    if moved > 1:
        m.nontrivial(seen[-1][0].tobytes(), seen[-1][1].tobytes())


def penalised(m):
    """Half-quadratic splitting and its penalised objective, half step by half step."""
    rng = m.rng
    for _ in range(30):
        cplx = bool(rng.random() < .2)
        run = S.b_hqs(rng, cplx, p19.nonsmooth(rng, cplx) if rng.random() < .3 else None)
        if run.data["tau"] is not None and run.ncb == 2:
            break
    else:
        return
    f, g, tau, gf = run.data["f"], run.data["g"], run.data["tau"], run.data["gfirst"]
    seen, res = S.trace(run, nsteps(rng))
    m.describe(**run.opts)
    F = lambda s, x: 0. if s.ind else s.f(x)
    J = lambda x, z: F(f, x) + F(g, z) + float(np.sum(np.abs(x - z) ** 2)) / (2 * tau)
    seq = []
    for k, (x, z) in enumerate(seen):
        if k:
            px, pz = seen[k - 1]
            seq.append(J(px, z) if gf else J(x, pz))
        seq.append(J(x, z))
    sc = 1 + max(max(np.abs(x).max(), np.abs(z).max()) for x, z in seen) ** 2 * (1 + 1 / tau)
    if down(m, seq, "half-quadratic splitting never increases its penalised objective", sc, 1e-9 + 10 * g.acc, opts=run.opts) > 1:
        m.nontrivial(seen[-1][0].tobytes(), seen[-1][1].tobytes())
    m.event("penalised objective values", len(seq))


# ------------------------------------------------------------------ distances
def proxpoint(m):
    rng = m.rng
    cplx = bool(rng.random() < .2)
    g = p19.nonsmooth(rng, cplx) if rng.random() < .6 else p19.quad(rng, int(rng.integers(1, 6)), cplx)
    run = S.b_proximalpoint(rng, cplx, g if getattr(g, "explicit", True) else None)
    s, tau = run.data["f"], run.opts["tau"]
    N = nsteps(rng)
    seen, _ = S.trace(run, N, tol=None)
    xs = [np.asarray(run.x0, dtype=complex if cplx else float)] + [v[0] for v in seen]
    # a solution, by the independent functional: large steps reach it
    sol = xs[0]
    for t in (1e2, 1e4, 1e6):
        for _ in range(30):
            sol = s.prox(sol, t)
    sc = 1 + max(np.abs(x).max() for x in xs)
    m.describe(**run.opts)
    acc = 1e-9 + 20 * s.acc
    if np.abs(s.prox(sol, 1.) - sol).max() < 1e-9 * sc:
        mv = down(m, [float(np.linalg.norm(x - sol)) for x in xs], "the distance to a solution never grows", sc, acc, opts=run.opts)
        m.event("distances", len(xs))
    else:
        mv = 0
    if not s.ind:
        mv = max(mv, down(m, [s.f(x) for x in xs], "proximal point never increases its function", sc + abs(s.f(xs[0])), acc, opts=run.opts))
    down(m, [float(np.linalg.norm(b - a)) for a, b in zip(xs, xs[1:])], "proximal point moves never grow", sc, acc, opts=run.opts)
    if mv > 1:
        m.nontrivial(xs[-1].tobytes(), tau)


def splitting(m):
    """Fejer monotonicity of the fixed-point variables of the splitting methods, read from callbacks and hooks."""
    rng = m.rng
    P, O = S.P(), S.O()
    cplx = bool(rng.random() < .2)
    which = m.index % 6
    if which in (4, 5):
        g = p19.nonsmooth(rng, cplx)
        n = int(rng.integers(1, 6))
        A = gen.mat(rng, g.n, n, cplx, cond=4.)
        if g.ind:
            q = np.asarray(g.prox(np.ones(g.n), 1.)).ravel()
            if np.linalg.norm(q) < 1e-6:
                return
            A[:, 0] = q / max(1., np.linalg.norm(q))
            if g.n > n:
                return
    else:
        g = p19.nonsmooth(rng, cplx)
        n, A = g.n, None
    f = p19.quad(rng, n, cplx)
    try:
        xs, sc = p19.optimum(f.H, f.c, [(A, g, 1.)], cplx)
    except p19.Skip:
        return
    tau = gen.logu(rng, .1, 8)
    eta = float(rng.uniform(.1, 1.95))
    gf = bool(rng.random() < .5)
    N = nsteps(rng)
    x0 = S.vec(rng, n, cplx) * gen.logu(rng, .1, 20)
    grad = f.grad(xs)
    log = Log()
    uf, ug = record(f, log, "f"), record(g, log, "g")
    fo = uf() if not f.explicit else (f.make() if rng.random() < .7 else uf())
    go = ug() if g.acc > 1e-9 or rng.random() < .3 else g.make()
    seq, seq2, nm = [], [], ""
    seen = []

    def cb(*a):
        seen.append(tuple(np.array(v, copy=True) for v in a))
        log.mark()
    if which == 0:
        nm = "DouglasRachford"
        O.primal.DouglasRachfordSplitting(fo, go, x0.copy(), tau, eta=eta, niter=N, gfirst=gf, callback=cb, callbacky=True)
        star = xs - tau * grad if gf else xs + tau * grad
        ys = [x0] + [v[1] for v in seen]
        seq = [float(np.linalg.norm(y - star)) for y in ys]
        seq2 = [float(np.linalg.norm(b - a)) for a, b in zip(ys, ys[1:])]
        sc += np.abs(star).max()
    elif which == 1:
        nm = "ADMM"
        O.primal.ADMM(fo, go, x0.copy(), tau, niter=N, gfirst=gf, callback=cb, callbackz=True)
        w = 0 * x0
        # scaled multiplier at the solution: z-step optimality gives w* in tau * subdifferential of g
        ws = -tau * grad
        for x, z in seen:
            w = w + x - z
            second = x if gf else z          # the variable updated last, entering the next step
            seq.append(float(np.sqrt(np.linalg.norm(second - xs) ** 2 + np.linalg.norm(w - ws) ** 2)))
        sc += np.abs(ws).max()
    elif which == 2:
        nm = "PPXA"
        W = rng.random(2) + .2
        W = W / W.sum()
        order = bool(rng.random() < .5)
        fs = [fo, go] if order else [go, fo]
        fs[0], fs[1] = _wrap(fs[0], log, "a"), _wrap(fs[1], log, "b")
        O.primal.PPXA(fs, x0.copy(), tau, eta=eta, weights=W, niter=N, tol=0., callback=cb)
        ia = [v[2] for v in log.ev if v[0] == "prox" and v[1] == "a"]
        ib = [v[2] for v in log.ev if v[0] == "prox" and v[1] == "b"]
        sa = grad if order else -grad
        stars = xs + tau / W[0] * sa, xs - tau / W[1] * sa
        for a, b in zip(ia, ib):
            seq.append(float(np.sqrt(W[0] * np.linalg.norm(a - stars[0]) ** 2 + W[1] * np.linalg.norm(b - stars[1]) ** 2)))
        seq2 = [float(np.sqrt(W[0] * np.linalg.norm(a2 - a1) ** 2 + W[1] * np.linalg.norm(b2 - b1) ** 2)) for a1, a2, b1, b2 in zip(ia, ia[1:], ib, ib[1:])]
        sc += max(np.abs(s).max() for s in stars)
    elif which == 3:
        nm = "Consensus"
        fs = [_wrap(fo, log, "a"), _wrap(go, log, "b")]
        O.primal.ConsensusADMM(fs, x0.copy(), tau, niter=N, tol=0., callback=cb)
        bars = [x0] + [v[0] for v in seen]
        ia = [v[2] for v in log.ev if v[0] == "prox" and v[1] == "a"]
        ib = [v[2] for v in log.ev if v[0] == "prox" and v[1] == "b"]
        for bar, a, b in zip(bars, ia, ib):
            ya, yb = bar - a, bar - b
            seq.append(float(np.sqrt(2 * np.linalg.norm(bar - xs) ** 2 + np.linalg.norm(ya + tau * grad) ** 2 + np.linalg.norm(yb - tau * grad) ** 2)))
        sc += tau * np.abs(grad).max()
    else:
        nA = float(np.linalg.norm(A, 2))
        Ao = gen.linop(rng, A)
        # the multiplier must be unique: A of full row rank
        if g.n > n or np.linalg.svd(A, compute_uv=False).min() < .05 * nA:
            return
        ystar = -np.linalg.lstsq(A.conj().T, grad, rcond=None)[0]
        if np.abs(A.conj().T @ ystar + grad).max() > 1e-6 * sc:
            return
        sc += np.abs(ystar).max()
        if which == 4:
            nm = "PrimalDual"
            mu = float(rng.uniform(.3, .98)) / (tau * nA ** 2)
            O.primaldual.PrimalDual(fo, go, Ao, x0.copy(), tau, mu, niter=N, gfirst=gf, callback=cb, callbacky=True)
            pairs = [(seen[k][0], seen[k + 1][1]) for k in range(len(seen) - 1)] if gf else seen
            for x, y in pairs:
                dx, dy = x - xs, y - ystar
                seq.append(float(np.linalg.norm(dx) ** 2 / tau - 2 * C.rdot(A @ dx, dy) + np.linalg.norm(dy) ** 2 / mu))
            sc = sc ** 2 * (1 + 1 / tau + 1 / mu) * 10
        else:
            nm = "LinearizedADMM"
            t = tau
            mu = float(rng.uniform(.3, 1.)) * t / nA ** 2
            O.primal.LinearizedADMM(fo, _wrap(go, log, "h"), Ao, x0.copy(), t, mu, niter=N, callback=cb)
            hist = [v for v in log.ev if v[0] == "prox" and v[1] == "h"]
            for (x,), v in zip(seen, hist):
                z, w = v[4], v[2] - v[4]
                dx = x - xs
                seq.append(float(np.linalg.norm(dx) ** 2 / mu - np.linalg.norm(A @ dx) ** 2 / t + (np.linalg.norm(z - A @ xs) ** 2 + np.linalg.norm(w - t * ystar) ** 2) / t))
            sc = sc ** 2 * (1 + 1 / t + 1 / mu) * 10 * (1 + t)
    m.describe(method=nm, f=f.name, g=g.name, tau=tau, eta=eta, gfirst=gf, n=n, N=N)
    tol = 3e-6 + 20 * g.acc
    big = max([sc] + [abs(v) for v in seq])
    mv = down(m, seq, "the distance of the fixed-point variable to a solution never grows", big, tol, method=nm, eta=eta, tau=tau, gfirst=gf, f=f.name, g=g.name)
    down(m, seq2, "the moves of a fixed-point iteration never grow", sc, tol, method=nm, eta=eta, tau=tau, gfirst=gf)
    m.event("distances " + nm, len(seq))
    if mv > 1:
        m.nontrivial(nm, x0.tobytes(), tau)


def _wrap(op, log, name):
    if not _rec:
        record(C.Spec("dummy", None, 1, None), log, name)
    return _rec["c"](op, log, name)


GROUPS = [("gradient", gradient, 4500, 40000), ("alternating", alternating, 2700, 25000), ("penalised", penalised, 1800, 15000), ("proxpoint", proxpoint, 1500, 15000), ("splitting", splitting, 2700, 25000)]
