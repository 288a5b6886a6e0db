"""P30: library calls leave the process as they found it, print nothing unasked, and do not depend on process-wide state."""
import contextlib
import decimal
import gc
import io
import json
import locale
import logging
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

import catalog as C
import gen
import solvers as S
import wraps as W
import zoo as Z

PROP = "P30"
RULE = ("one case = a random history of library calls in one process; before and after every call the process-wide state (random generators, floating-point error handling, warning filters, "
        "print options, environment, working directory and its files, threads, logging, signals, streams) is compared; the same calls repeated in another order and under another global "
        "seed give identical bits; non-trivial when every call returned arrays")


def snapshot():
    st = np.random.get_state()
    return {
        "numpy random": (st[0], st[1].tobytes(), st[2:]),
        "python random": hash(random.getstate()),
        "error handling": tuple(sorted(np.geterr().items())),
        "error callback": np.geterrcall(),
        "error buffer": np.getbufsize(),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": tuple(map(str, warnings.filters)),
        "warning hook": warnings.showwarning,
        "environment": tuple(sorted(os.environ.items())),
        "directory": os.getcwd(),
        "files": tuple(sorted(os.listdir("."))),
        "threads": threading.active_count(),
        "logging": (logging.root.level, tuple(logging.root.handlers), logging.root.manager.disable),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr),
        "signals": tuple(str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE)),
        "decimal": str(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion": sys.getrecursionlimit(),
        "gc": gc.isenabled(),
        "path": tuple(sys.path),
        "trace": (sys.gettrace(), sys.getprofile()),
        "numpy switches": tuple(str(getattr(np, k, None)) for k in ("sum", "dot", "abs", "sqrt", "array", "asarray", "float64")),
    }


def differ(a, b):
    return [k for k in a if a[k] != b[k]]


@contextlib.contextmanager
def scratch():
    """An empty working directory and user-chosen ambient settings, restored afterwards."""
    old = os.getcwd()
    err, po = np.geterr(), np.get_printoptions()
    st, pst = np.random.get_state(), random.getstate()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield
        finally:
            os.chdir(old)
            np.seterr(**err)
            np.set_printoptions(**po)
            np.random.set_state(st)
            random.setstate(pst)


def ambient(rng):
    """What a user's program may have set before calling the library."""
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    random.seed(int(rng.integers(0, 2 ** 31)))
    for _ in range(int(rng.integers(0, 4))):
        np.random.standard_normal()        # also leaves a half-used gaussian pair
    modes = ["ignore", "warn"]
    np.seterr(**{k: modes[int(rng.integers(0, 2))] for k in ("divide", "over", "under", "invalid")})
    np.set_printoptions(precision=int(rng.integers(3, 12)), threshold=int(rng.integers(5, 2000)), suppress=bool(rng.integers(0, 2)))


def watched(m, what, go, want_output=False, **kw):
    a = snapshot()
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        r = go()
    b = snapshot()
    d = differ(a, b)
    m.ok(not d, "process-wide state is as before the call", call=what, changed=d, before={k: str(a[k])[:80] for k in d}, after={k: str(b[k])[:80] for k in d}, **kw)
    if not want_output:
        m.ok(out.getvalue() == "", "nothing is printed unasked", call=what, got=out.getvalue()[:200], **kw)
    m.ok(err.getvalue() == "", "nothing goes to the error stream", call=what, got=err.getvalue()[:200], **kw)
    m.event("watched: " + what.split("[")[0].split(" ")[0])
    return r


def bits(r):
    if isinstance(r, tuple):
        return tuple(bits(v) for v in r)
    if isinstance(r, np.ndarray):
        return (r.shape, str(r.dtype), r.tobytes())
    return repr(r)


def operators(m):
    rng = m.rng
    with scratch():
        ambient(rng)
        its = [Z.pick(m, .15) for _ in range(int(rng.integers(1, 4)))]
        ambient(rng)
        plan = []
        for it in its:
            x = it.draw(rng)
            t = gen.tau(rng)
            if it.iterative:
                t = float(np.clip(t, 1e-3, 1e3))
            seq = [str(rng.choice(["prox", "proxdual", "value", "grad"])) for _ in range(int(rng.integers(1, 5)))]
            plan.append((it, x, t, seq))
        m.describe(specs=[p[0].name for p in plan], seqs=[p[3] for p in plan])

        def go(order_seed):
            """Every operator's own history, interleaved differently."""
            r = np.random.default_rng(order_seed)
            ops = {}
            todo = [list(p[3]) for p in plan]
            res = [[] for _ in plan]
            while any(todo):
                i = int(r.choice([j for j, q in enumerate(todo) if q]))
                it, x, t, _ = plan[i]
                k = todo[i].pop(0)
                if i not in ops:
                    ops[i] = watched(m, f"construct [{it.name}]", it.make)
                op = ops[i]
                if k == "value":
                    if it.value:
                        res[i].append(bits(watched(m, f"value [{it.name}]", lambda: op(x.copy()))))
                elif k == "grad":
                    if it.grad:
                        res[i].append(bits(watched(m, f"grad [{it.name}]", lambda: op.grad(x.copy()))))
                else:
                    res[i].append(bits(watched(m, f"{k} [{it.name}]", lambda: getattr(op, k)(x.copy(), t))))
                if m.fails:
                    return res
            return res
        a = go(1)
        if m.fails:
            return
        ambient(rng)
        b = go(2)
        if m.fails:
            return
        for i, (u, v) in enumerate(zip(a, b)):
            m.ok(u == v, "another order and another global seed give identical results", spec=plan[i][0].name, seq=plan[i][3], x=plan[i][1], tau=plan[i][2])
    m.event("histories")
    m.nontrivial(str([(p[0].name, p[1].tobytes(), p[2]) for p in plan]))


TAB = None


def solvers(m):
    rng = m.rng
    tab = {**S.ALL, **W.WRAPS}
    nm = list(tab)[m.index % len(tab)]
    c = nm not in S.NOCPLX and nm != "Segment" and rng.random() < .2
    seed = int(rng.integers(0, 2 ** 31))
    niter = int(rng.choice([1, 2, 5, 15]))
    show = bool(rng.random() < .3)
    m.describe(solver=nm, niter=niter, show=show)
    with scratch():
        out = []
        for k in range(2):
            run = tab[nm](np.random.default_rng(seed), c)
            ambient(rng)
            try:
                cb = bool(rng.random() < .5)
                def go():
                    if cb:
                        return S.trace(run, niter, show=show)
                    return None, run.call(niter, None, show)
                with np.errstate(all="ignore"):
                    r = watched(m, f"{nm} run", go, want_output=show, niter=niter, show=show)
            except ZeroDivisionError:
                if "PALM" in nm.upper():
                    m.event("degenerate factor")
                    return
                raise
            out.append(run.ret(r[1]))
            if m.fails:
                return
        if nm == "TwIST":
            for u, v in zip(*out):
                m.close(u, v, "a second run gives the same result", 1e-3 * (1 + np.abs(v).max(initial=0)), solver=nm)
        else:
            for u, v in zip(*out):
                m.ok(np.array_equal(u, v, equal_nan=True) and np.shape(u) == np.shape(v), "a second run under another global seed gives identical results", solver=nm, niter=niter, opts=run.opts, got=v, want=u)
    m.event("runs: " + nm)
    m.nontrivial(nm, seed, niter)


class Boom(RuntimeError):
    pass


def failing(m):
    """An error raised by user code inside a solver leaves nothing behind."""
    rng = m.rng
    tab = {**S.ALL, **W.WRAPS}
    nm = list(tab)[m.index % len(tab)]
    c = nm not in S.NOCPLX and nm != "Segment" and rng.random() < .1
    run = tab[nm](rng, c)
    at = int(rng.integers(0, 4))
    m.describe(solver=nm, at=at)
    n = [0]

    def cb(*a):
        if n[0] == at:
            raise Boom()
        n[0] += 1
    with scratch():
        ambient(rng)
        a = snapshot()
        out, err = io.StringIO(), io.StringIO()
        hit = False
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), np.errstate(all="ignore"):
                run.call(6, cb, bool(rng.random() < .2))
        except Boom:
            hit = True
        except ZeroDivisionError:
            if "PALM" not in nm.upper():
                raise
        m.ok(hit or n[0] <= at or "PALM" in nm.upper(), "an error in the callback reaches the caller", solver=nm, at=at, calls=n[0])
        d = differ(a, snapshot())
        m.ok(not d, "process-wide state is as before a failed call", solver=nm, changed=d)
        m.ok(err.getvalue() == "", "nothing goes to the error stream", solver=nm, got=err.getvalue()[:200])
    m.event("errors propagated" if hit else "no callback reached")
    if hit:
        m.nontrivial(nm, at, run.opts and str(run.opts))


def utilities(m):
    """Projections and helpers called directly, and the verification utilities with their own state rules."""
    rng = m.rng
    import pyproximal.projection as J
    from pyproximal.utils.moreau import moreau
    n = int(rng.integers(1, 8))
    x = rng.standard_normal(n) * 2
    k = int(rng.integers(1, 4))
    X = rng.standard_normal(n * k)
    r = gen.logu(rng, .2, 5)
    w = rng.standard_normal(n) + .2
    TABLE = [
        ("BoxProj", lambda: J.BoxProj(-1, 1), x), ("EuclideanBallProj", lambda: J.EuclideanBallProj(w, r), x), ("L0BallProj", lambda: J.L0BallProj(int(rng.integers(0, n + 1))), x),
        ("L1BallProj", lambda: J.L1BallProj(n, r), x), ("L10BallProj", lambda: J.L10BallProj(1), X.reshape(k, n)), ("NuclearBallProj", lambda: J.NuclearBallProj(min(n, k), r), X.reshape(n, k)), ("SimplexProj", lambda: J.SimplexProj(n, r), x),
        ("AffineSetProj", lambda: J.AffineSetProj(gen.dense(w[None]), np.array([r]), 10), x), ("HalfSpaceProj", lambda: J.HalfSpaceProj(w, r), x), ("HankelProj", lambda: J.HankelProj(), X.reshape(n, k)),
        ("HyperPlaneBoxProj", lambda: J.HyperPlaneBoxProj(np.ones(n), 0., -1., 1.), x), ("IntersectionProj", lambda: J.IntersectionProj(k, n, .3), X.reshape(k, n)),
        ("GenericIntersectionProj", lambda: J.GenericIntersectionProj([J.BoxProj(-1, 1), J.EuclideanBallProj(np.zeros(n), 1.)], 100, 1e-9), x),
        ("moreau", lambda: (lambda v: np.array(float(moreau(C.P().L1(), v, .5)))), x),
        ("metrics", None, x),
    ]
    nm, mk, v = TABLE[m.index % len(TABLE)]
    if mk is None:
        from pyproximal.utils.bilinear import LowRankFactorizedMatrix as L
        mk = lambda: (lambda q: L(X.reshape(n, k).copy(), rng0.standard_normal((k, 3)), np.ones(3 * n)).grad(np.concatenate([X, np.ones(3 * k)])))
        nm = "LowRankFactorizedMatrix"
    m.describe(call=nm, x=v)
    with scratch():
        res = []
        for _ in range(2):
            ambient(rng)
            rng0 = np.random.default_rng(5)
            if nm in ("L0BallProj",):
                mk = lambda: J.L0BallProj(min(2, n))
            p = watched(m, f"construct [{nm}]", mk)
            res.append(bits(watched(m, nm, lambda: p(v.copy()))))
        m.ok(res[0] == res[1], "another global seed gives identical results", call=nm, x=v)
    m.event("utilities")
    m.nontrivial(nm, v.tobytes())


CHILD = r"""
import contextlib, io, json, sys
sys.path.insert(0, sys.argv[1])
import env, p30
import numpy as np, warnings
import scipy.sparse.linalg, scipy.optimize, scipy.linalg, scipy.special, pylops, pylops.optimization.leastsquares
try:
    import numba
    import numba.cuda
except Exception:
    pass
np.random.seed(3)
a = p30.snapshot()
out, err = io.StringIO(), io.StringIO()
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
    import pyproximal
    for k in dir(pyproximal):
        getattr(pyproximal, k)
b = p30.snapshot()
print("RESULT" + json.dumps(dict(changed=p30.differ(a, b), out=out.getvalue(), err=err.getvalue(), where=pyproximal.__file__)))
"""


def importing(m):
    """Importing the library changes nothing either."""
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run([sys.executable, "-c", CHILD, os.path.dirname(os.path.abspath(__file__))], capture_output=True, text=True, cwd=d, timeout=200)
        ln = [q for q in r.stdout.splitlines() if q.startswith("RESULT")]
        if not m.ok(len(ln) == 1 and r.returncode == 0, "the library imports", got=r.stderr[-300:]):
            return
        q = json.loads(ln[0][6:])
        m.ok(not q["changed"], "importing changes no process-wide state", changed=q["changed"])
        m.ok(q["out"] == "" and q["err"] == "", "importing prints nothing", out=q["out"][:200], err=q["err"][:200])
        m.ok(r.stdout.strip() == ln[0] and "Traceback" not in r.stderr, "importing prints nothing", out=r.stdout[:200])
    m.event("imports")
    m.nontrivial("import", m.index)


GROUPS = [("operators", operators, 800, 20000), ("solvers", solvers, 400, 8000), ("failing", failing, 300, 6000), ("utilities", utilities, 300, 6000), ("importing", importing, 2, 8)]
