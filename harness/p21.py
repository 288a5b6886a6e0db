"""P21: one callback per iteration, documented stopping, and no influence of callbacks, progress output or aliases."""
import contextlib
import io
import warnings

import numpy as np

import catalog as C
import gen
import solvers as S
import wraps as W

PROP = "P21"
RULE = ("one case = one solver run observed through its callback and compared with its documented recursion and stopping rule, and repeated without "
        "callback and with progress printed; non-trivial when the run made at least two distinct iterations")

TABLE = {**S.ALL, **W.WRAPS}
HASTOL = {"ProximalPoint", "ProximalGradient", "AcceleratedProximalGradient", "AndersonProximalGradient", "PPXA", "ConsensusADMM", "AdaptivePrimalDual"}


OBJ = HASTOL - {"PPXA", "ConsensusADMM", "AdaptivePrimalDual"}      # criterion on the objective


def flat(res):
    """Everything a solver returned, as a list of arrays."""
    if isinstance(res, (tuple, list)):
        return [a for r in res for a in flat(r)]
    return [np.array(res, copy=True)]


def same(m, a, b, what, **kw):
    kw = dict(kw)
    exact = kw.pop("exact", True)
    a, b = flat(a), flat(b)
    if not m.ok(len(a) == len(b), what + " (number of results)", **kw):
        return
    for u, v in zip(a, b):
        if not exact:
            m.close(u, v, what, 1e-6 * (1 + float(np.abs(v).max(initial=0))), **kw)
            continue
        m.ok(u.shape == v.shape and u.dtype == v.dtype and u.tobytes() == v.tobytes(), what, got=u, want=v, **kw)


def pick(m, tol=None):
    names = list(TABLE)
    nm = names[m.index % len(names)]
    c = nm not in S.NOCPLX and nm != "Segment" and m.rng.random() < .2
    run = TABLE[nm](m.rng, bool(c))
    m.event("solver:" + nm + ("[complex]" if c else ""))
    return run


def runs(m):
    rng = m.rng
    run = pick(m)
    niter = int(rng.choice([1, 2, 3, 7, 12, 19, 33]))
    over = {}
    if run.name in HASTOL and rng.random() < .5 and not (run.name in OBJ and any(q.ind for q in run.specs)):
        over["tol"] = gen.logu(rng, 1e-4, .5)
        if run.name in ("PPXA", "ConsensusADMM", "AdaptivePrimalDual") and rng.random() < .3:
            over["tol"] = gen.logu(rng, .5, 1e3)        # met at the first or second iteration
    want, und = S.ref_trace(run, niter, **over)
    if und and run.ncb == 2:
        niter = max(len(want), 1)
        if not want:
            return
    seen, res = S.trace(run, niter, **over)
    m.describe(solver=run.name, niter=niter, over=str(over), **{k: str(v) for k, v in run.opts.items()})
    kw = dict(solver=run.name, opts=run.opts, over=str(over), niter=niter)
    if not und:
        m.ok(len(seen) == len(want), "number of callbacks equals the number of iterations of the documented scheme", got=len(seen), want=len(want), **kw)
        m.event("stopped by its criterion" if len(seen) < niter else "ran all iterations")
    exact = not (run.name == "TwIST" and run.opts["mode"] == 2)      # its eigenvalues are estimated from a random start
    m.ok(1 <= len(seen) <= niter, "no more callbacks than iterations", got=len(seen), **kw)
    if m.fails:
        return
    r = run.ret(res)
    for j in range(min(len(r), run.ncb)):
        m.close(np.asarray(r[j]), seen[-1][j], "the last callback sees what is returned", 0, **kw)
    # the callback sees every iterate once: each equals the result of a shorter run
    if niter > 1 and run.name not in ("MultiRHS",):
        k = int(rng.integers(1, len(seen) + 1))
        if can_shorten(run):
            s2, res2 = S.trace(run, k, **over)
            m.ok(len(s2) == k, "a shorter run makes exactly the requested iterations", got=len(s2), want=k, **kw)
            for a, b in zip(s2, seen):
                for u, v in zip(a, b):
                    m.close(u, v, "a shorter run passes through the same iterates", 0 if exact else 1e-6 * (1 + float(np.abs(v).max())), **kw)
            m.event("prefix runs")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        quiet = run.call(niter, None, False, **over)
    m.ok(out.getvalue() == "", "nothing is printed unless asked", printed=out.getvalue()[:80], **kw)
    same(m, quiet, res, "the callback does not change the result", exact=exact, **kw)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        shown, _ = S.trace(run, niter, True, **over)
        res3 = run.call(niter, None, True, **over)
    same(m, res3, res, "printing progress does not change the result", exact=exact, **kw)
    m.ok(len(shown) == len(seen) and all((np.array_equal(u, v, equal_nan=True) or not exact) for a, b in zip(shown, seen) for u, v in zip(a, b)),
         "printing progress does not change the callbacks", **kw)
    m.ok(len(out.getvalue()) > 0, "progress is printed when asked", **kw)
    if niter < 20 and run.name != "Bregman":
        nums = [t[0] for t in (ln.split() for ln in out.getvalue().splitlines()) if t and t[0].isdigit() and len(t) > 1]
        half = [str(i + 1) for i in range(len(seen))]
        m.ok(nums == half + half, "progress shows every iteration once", got=nums, want=half, **kw)
    m.event("silent, observed and printed runs compared")
    if len(seen) > 1 and any(np.any(seen[0][j] != seen[-1][j]) for j in range(run.ncb)):
        m.nontrivial(run.name, seen[-1][0].tobytes(), str(run.opts))


def can_shorten(run):
    # per-iteration arrays have the length of the run
    return not any(w in str(v) for v in run.opts.values() for w in ("vector", "array", "Variable"))


def alias(m):
    """Deprecated names behave as what replaced them."""
    rng = m.rng
    n = int(rng.integers(1, 6))
    f, g = S.smooth(rng, n), S.anyf(rng, n, False, False)
    x0 = S.start(rng, n, False)
    kw = dict(niter=int(rng.integers(1, 12)), epsg=gen.logu(rng, .2, 3))
    if rng.random() < .7:
        kw["tau"] = float(rng.uniform(.2, 1)) / f.L
    else:
        kw.update(beta=float(rng.choice([.5, .7])), niterback=int(rng.choice([100, 3])))
    if rng.random() < .3:
        kw["tol"] = gen.logu(rng, 1e-4, .3)
    acc = [None, "vandenberghe", "fista"][int(rng.integers(0, 3))]
    o = S.O().primal
    a, b = [], []
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if acc == "vandenberghe" and rng.random() < .5:
            u = o.AcceleratedProximalGradient(f.make(), g.make(), x0, callback=lambda x: a.append(x.copy()), **kw)
        else:
            u = o.AcceleratedProximalGradient(f.make(), g.make(), x0, acceleration=acc, callback=lambda x: a.append(x.copy()), **kw)
    m.ok(any(issubclass(q.category, Warning) for q in w), "a deprecated name warns")
    v = o.ProximalGradient(f.make(), g.make(), x0, acceleration=acc, callback=lambda x: b.append(x.copy()), **kw)
    m.close(u, v, "the deprecated accelerated solver equals its replacement", 0, kw=str(kw), acc=acc)
    m.ok(len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b)), "callbacks of the deprecated solver", kw=str(kw), acc=acc)
    # ball of grouped counts
    nd, nt, r = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(0, 4))
    x = rng.standard_normal(nd * nt)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = C.P().L01Ball(nd, r) if hasattr(C.P(), "L01Ball") else None
        if q is not None:
            m.close(q.prox(x, 1.), C.P().L10Ball(nd, r).prox(x, 1.), "the deprecated ball equals its replacement", 0)
            m.ok(q(x) == C.P().L10Ball(nd, r)(x), "membership of the deprecated ball")
        if hasattr(C.P().projection, "L01BallProj"):
            m.close(C.P().projection.L01BallProj(r)(x.reshape(nd, nt)), C.P().projection.L10BallProj(r)(x.reshape(nd, nt)), "the deprecated projection", 0)
    m.nontrivial(np.asarray(u).tobytes(), str(kw))
    m.describe(f=f.name, g=g.name, **kw)


def exhaustive(m):
    """Iterations stop at the first one meeting the criterion recomputed from the observed iterates themselves."""
    rng = m.rng
    names = ["ProximalPoint", "ProximalGradient", "AcceleratedProximalGradient", "PPXA", "ConsensusADMM", "Anderson"]
    nm = names[m.index % len(names)]
    run = S.ALL[nm](rng, False)
    if run.name in OBJ and any(q.ind for q in run.specs):
        return
    off = dict(tol=0. if nm in ("PPXA", "ConsensusADMM") else None)
    niter = int(rng.choice([8, 20, 60]))
    full, _ = S.trace(run, niter, **off)
    m.ok(len(full) == niter, "without a tolerance every requested iteration is made", solver=nm, got=len(full), want=niter, opts=run.opts)
    d = run.data or {}
    if nm in ("PPXA", "ConsensusADMM"):
        ch = [np.abs(full[k][0] - full[k - 1][0]).max() if k else np.inf for k in range(len(full))]
    else:
        J = objective(run)
        if J is None:
            return
        js = [J(s[0], k) for k, s in enumerate(full)]
        if not np.all(np.isfinite(js)):
            return
        ch = [np.inf] + [abs(js[k] - js[k - 1]) / abs(js[k - 1]) if js[k - 1] != 0 else (np.inf if js[k] != js[k - 1] else np.nan) for k in range(1, len(js))]
    fin = [c for c in ch[1:] if np.isfinite(c) and c > 1e-9]
    if not fin:
        return
    tol = float(rng.choice(fin)) * float(rng.choice([1.5, .6, 3.]))
    first = next((k for k, c in enumerate(ch) if not np.isnan(c) and c < tol), None)
    if any(np.isfinite(c) and abs(c - tol) < 1e-6 * tol for c in ch) or any(np.isnan(c) for c in ch):
        return
    want = niter if first is None else first + 1
    got, _ = S.trace(run, niter, tol=tol)
    if nm in ("PPXA", "ConsensusADMM") and len(got) == 1 and want != 1:
        return          # the first change is measured from the start, not observed here
    m.ok(len(got) == want, "the run stops at the first iteration meeting its criterion", solver=nm, got=len(got), want=want, tol=tol, changes=np.array(ch[1:]), opts=run.opts)
    m.describe(solver=nm, used=tol, niter=niter, **{k: str(v) for k, v in run.opts.items()})
    m.event("early stops" if first is not None else "complete runs")
    m.nontrivial(nm, full[-1][0].tobytes())


def objective(run):
    d = run.data
    if d is None or "J" not in d:
        return None
    return d["J"]


def table(run, x, k):
    """The numbers a progress line promises for one iterate, by its header: first entry, functionals, objective."""
    d, nm = run.data, run.name
    v = lambda s, z: float(s.make()(np.array(z, copy=True)))
    if nm == "ProximalPoint":
        return [v(d["f"], x)]
    if nm in ("PALM", "iPALM"):
        return [v(d["pf"], x[0]) if d["pf"] else 0., v(d["pg"], x[1]) if d["pg"] else 0., d["b"].f(x[0], x[1])]
    if nm in ("PPXA", "ConsensusADMM"):
        return [sum(v(q, x) for q in d["fs"])]
    if nm == "GeneralizedProximalGradient":
        e = np.broadcast_to(np.asarray(d["epsg"], float), (len(d["gs"]),))
        a, b = sum(v(q, x) for q in d["fs"]), sum(w * v(q, x) for q, w in zip(d["gs"], e))
        return [a, b, a + b]
    if nm == "ADMML2":
        a, b = .5 * float(np.linalg.norm(d["M"] @ x - d["b"]) ** 2), v(d["g"], d["A"] @ x)
        return [a, b, a + b]
    a = v(d["f"], x)
    if nm in ("LinearizedADMM", "PrimalDual", "AdaptivePrimalDual"):
        b = v(d["g"], d["A"] @ x)
        if nm == "LinearizedADMM":
            return [a, b, a + b]
        z = 0. if d["z"] is None else float(np.real(np.vdot(d["z"], x)))
        return [a, b, z, a + b + z]
    b = v(d["g"], x)
    J = d["J"](x, k) if "J" in d else a + b
    return [a, b, J]


SHOWN = [n for n in S.ALL if n not in ("MultiRHS", "TwIST")]


def printed(m):
    """Progress lines report the iterate of their iteration: its first entry and the functionals at it."""
    rng = m.rng
    nm = SHOWN[m.index % len(SHOWN)]
    run = S.ALL[nm](rng, bool(nm not in S.NOCPLX and rng.random() < .3))
    if run.data is None or any(q.ind for q in run.specs):
        m.event("indicator: objective not defined")
        return
    niter = int(rng.choice([2, 5, 12]))
    out = io.StringIO()
    with warnings.catch_warnings():
        warnings.filterwarnings("error", category=np.exceptions.ComplexWarning)
        with contextlib.redirect_stdout(out):
            try:
                seen, _ = S.trace(run, niter, True)
            except ZeroDivisionError:
                if nm in ("PALM", "iPALM"):     # a factor vanished: no Lipschitz constant
                    return
                raise
    m.describe(solver=run.name, niter=niter, **{k: str(v) for k, v in run.opts.items()})
    rows = [t for t in (ln.split() for ln in out.getvalue().splitlines()) if len(t) > 1 and t[0].isdigit()]
    if not m.ok([r[0] for r in rows] == [str(i + 1) for i in range(len(seen))], "one progress line per iteration", solver=run.name, got=[r[0] for r in rows], want=len(seen)):
        return
    for i, (r, s) in enumerate(zip(rows, seen)):
        it = (np.ravel(s[0]), np.ravel(s[1])) if nm in ("PALM", "iPALM") else np.asarray(s[0])
        first = [it[0].flat[0].real, it[1].flat[0].real] if isinstance(it, tuple) else [it.flat[0].real]
        want = [float(v) for v in first] + table(run, it, i)
        if not np.all(np.isfinite(want)):
            return
        got = [float(t) for t in r[1:1 + len(want)]]
        for j, (g, w) in enumerate(zip(got, want)):
            sc = max(abs(q) for q in want[len(first):]) if j >= len(first) else 0
            m.le(abs(g - w), (1.1e-5 if j < len(first) == 1 else 2e-3 if len(first) == 1 else 6e-3) * abs(w), "a progress line shows its iterate and the functionals at it", 1e-9 * (1 + sc) + (1e-6 * sc if j >= len(first) else 0),
                 solver=run.name, opts=run.opts, iteration=i + 1, column=j + 1, line=" ".join(r), want=want)
        m.event("progress lines")
        if m.fails:
            return
    m.nontrivial(run.name, seen[-1][0].tobytes(), str(run.opts))


GROUPS = [("runs", runs, 700, 9000), ("alias", alias, 100, 1500), ("exhaustive", exhaustive, 300, 4000), ("printed", printed, 500, 6000)]
