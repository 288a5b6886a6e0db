"""P11: answers depend on configuration and arguments, not on the history of the operator."""
import copy
import os
import sys
import threading

import numpy as np

import catalog as C
import gen
import solvers as S
import wraps as W
import zoo

PROP = "P11"
RULE = ("one case = one operator driven through a random history of calls (or through interleaved threads, copies, repeated solver runs), each answer "
        "compared with the answer of a freshly built operator to the same call; non-trivial when the history had at least three calls before the last comparison")

WARM = ("L2[free", "Quadratic[free", "Nonlinear", "sched:L2", "Orth", "VStack")


def loose(it):
    return any(k in it.name for k in ("L2[free", "Quadratic[free", "Nonlinear"))


def agree(m, it, a, b, what, **kw):
    if a is None or b is None:
        return m.ok(a is b, what, op=it.name, **kw)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return m.ok(False, what, op=it.name, got=a, want=b, **kw)
    if a.dtype == bool or b.dtype == bool:
        return m.ok(bool(np.all(a == b)), what, op=it.name, got=a, want=b, **kw)
    sc = max(1., it.scale, float(np.abs(b).max(initial=0)))
    tol = (3e-4 if loose(it) else 1e-12) * sc
    return m.close(a, b, what, tol, op=it.name, **kw)


def invoke(op, call, x, t):
    if call == "value":
        try:
            return op(x)
        except NotImplementedError:
            return None
    if call == "grad":
        return op.grad(x)
    return getattr(op, call)(x, t)


def steps(rng, it):
    """A small pool of step sizes so that caches are hit, missed and nearly hit."""
    t = gen.tau(rng) if not it.iterative else gen.logu(rng, .1, 5)
    return [t, gen.logu(rng, .1, 5), t * (1 + gen.logu(rng, 1e-9, 1e-2)), t * 2, 1., 1]


def nonsched(m, names=None):
    names = names or [k for k in zoo.NAMES if k not in ("sched", "Hilbert")]
    return zoo.pick(m, names=names)


FREE = {"L1", "L0", "L0Ball", "ETP", "Geman", "Huber", "Log", "Log1", "SCAD", "Euclidean", "QuadraticEnvelopeCard", "QuadraticEnvelopeCardIndicator",
        "RelaxedMumfordShah", "L2", "L21", "Nuclear", "NuclearBall"}


def plan(rng, it, k):
    """A random list of calls (inputs of several kinds)."""
    out = []
    pool = [it.draw(rng) for _ in range(3)]
    ts = steps(rng, it)
    for _ in range(k):
        x = pool[int(rng.integers(0, 3))] if rng.random() < .6 else it.draw(rng)
        u = rng.random()
        call = "prox" if u < .5 else ("proxdual" if u < .7 else ("value" if u < .85 or not it.grad else "grad"))
        if call == "value" and not it.value:
            call = "prox"
        out.append((call, x, ts[int(rng.integers(0, len(ts)))]))
    return out


def history(m, it=None):
    """Every call of a long history against a fresh operator."""
    rng = m.rng
    it = it or nonsched(m)
    op = it.make()
    kept = []
    scribble = bool(rng.random() < .5)
    m.describe(op=it.name, scribble=scribble)
    log = []
    K = int(rng.integers(12, 40)) if rng.random() < .2 and not it.iterative else int(rng.integers(4, 10))
    for i, (call, x, t) in enumerate(plan(rng, it, K)):
        if rng.random() < .1 and not loose(it) and it.name in FREE and not np.iscomplexobj(x):
            # another size or type in between must leave no trace
            y = [np.concatenate([x.ravel(), x.ravel()]), x.ravel()[:1].copy(), x.astype(np.float32), x.astype(complex)][int(rng.integers(0, 4))]
            if y.ndim == x.ndim:
                try:
                    op.prox(y, t)
                    m.event("calls of another size or type")
                except Exception:
                    pass
        xa, xb = x.copy(), x.copy()
        got = invoke(op, call, xa, t)
        want = invoke(it.make(), call, xb, t)
        if not agree(m, it, got, want, "the answer is that of a fresh operator", call=call, x=x, tau=t, history=log):
            return
        log.append((call, float(t)))
        m.event("call:" + call)
        for a, b, c in kept:
            if not m.ok(a.tobytes() == b, "arrays returned earlier never change", op=it.name, which=c, later=call, now=a, history=log):
                return
        if scribble and isinstance(got, np.ndarray) and got.flags.writeable:
            # the caller owns what it was given (and its own input): it may overwrite both
            if rng.random() < .5:
                got += rng.standard_normal(got.shape).astype(got.real.dtype)
            if rng.random() < .5:
                xa += rng.standard_normal(xa.shape).astype(xa.real.dtype)
            m.event("results overwritten by the caller")
        elif isinstance(got, np.ndarray) and not np.shares_memory(got, xa):
            kept.append((got, got.tobytes(), call))
    m.nontrivial(it.name, x.tobytes(), len(log))


def mutual(m):
    """Two operators of the same class but different configuration used in turn: no shared state."""
    rng = m.rng
    names = [k for k in C.ALL]
    nm = names[m.index % len(names)]
    its = []
    for _ in range(3):
        c = bool(nm in C.COMPLEX_OK and rng.random() < .15)
        its.append(zoo.from_spec(C.ALL[nm](rng, cplx=c)))
    if rng.random() < .3:
        its[2] = zoo.derived(rng, its[1])
    ops = [i.make() for i in its]
    m.describe(ops=[i.name for i in its])
    t = steps(rng, its[0])
    for k in range(9):
        j = int(rng.integers(0, 3))
        it, op = its[j], ops[j]
        call, x, _ = plan(rng, it, 1)[0]
        tt = t[int(rng.integers(0, 3))]
        got = invoke(op, call, x.copy(), tt)
        want = invoke(it.make(), call, x.copy(), tt)
        if not agree(m, it, got, want, "operators of one class do not influence each other", call=call, x=x, tau=tt, call_number=k):
            return
    m.event("family:" + nm)
    m.nontrivial(nm, x.tobytes())


def copies(m):
    """Copies behave like the original, and neither influences the other."""
    rng = m.rng
    sched = rng.random() < .25
    it = zoo.scheduled(rng) if sched else nonsched(m)
    op = it.make()
    shadow = it.make()
    pre = plan(rng, it, int(rng.integers(0, 4)))
    for call, x, t in pre:
        invoke(op, call, x.copy(), t)
        invoke(shadow, call, x.copy(), t)
    cp = copy.deepcopy(op) if rng.random() < .6 else copy.copy(op)
    m.describe(op=it.name, calls_before=len(pre))
    for call, x, t in plan(rng, it, int(rng.integers(1, 4))):    # only the copy moves on
        invoke(cp, call, x.copy(), t)
    for call, x, t in plan(rng, it, int(rng.integers(1, 4))):
        got = invoke(op, call, x.copy(), t)
        want = invoke(shadow, call, x.copy(), t)
        if not agree(m, it, got, want, "using a copy leaves the original alone", call=call, x=x, tau=t):
            return
    cp2 = copy.deepcopy(op)
    for call, x, t in plan(rng, it, 3):
        got = invoke(cp2, call, x.copy(), t)
        want = invoke(op, call, x.copy(), t)
        if not agree(m, it, got, want, "a copy answers like its original", call=call, x=x, tau=t):
            return
    m.nontrivial(it.name, x.tobytes())


# ------------------------------------------------------------------------------ threads
class Interleaver:
    """Runs functions in threads, handing the right to execute library lines from one to the other at random (seeded)."""

    def __init__(self, seed, limit=4000):
        self.rng = np.random.default_rng(seed)
        self.cv = threading.Condition()
        self.turn = 0
        self.alive = set()
        self.switches = []
        self.left = limit
        self.root = os.sep + "pyproximal" + os.sep

    def trace(self, frame, event, arg):
        if self.root not in frame.f_code.co_filename:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.handover(frame)
        return self.line

    def handover(self, frame):
        me = int(threading.current_thread().name)
        with self.cv:
            if self.left > 0 and len(self.alive) > 1 and self.rng.random() < .35:
                self.left -= 1
                others = sorted(self.alive - {me})
                self.turn = others[int(self.rng.integers(0, len(others)))]
                self.switches.append((me, self.turn, frame.f_code.co_name, frame.f_lineno))
                self.cv.notify_all()
            while self.turn != me and self.turn in self.alive:
                if not self.cv.wait(10):
                    self.turn = me

    def run(self, fns):
        res = [None] * len(fns)

        def body(i):
            with self.cv:
                while self.turn != i and self.turn in self.alive:
                    if not self.cv.wait(10):
                        break
            sys.settrace(self.trace)
            try:
                res[i] = ("ok", fns[i]())
            except Exception as e:
                res[i] = ("raised", repr(e))
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive.discard(i)
                    if self.alive:
                        self.turn = sorted(self.alive)[0]
                    self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i,), name=str(i)) for i in range(len(fns))]
        self.alive = set(range(len(fns)))
        self.turn = 0
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        return res


def solving(rng):
    """Operators that keep the solution of a linear system or a factor of it between calls."""
    k = int(rng.integers(0, 6))
    c = bool(rng.random() < .2)
    if k < 4:
        s = C.g_l2(rng, c, 2 if k < 3 else 3)
    elif k == 4:
        s = C.ALL["Quadratic"](rng, cplx=False)
    else:
        s = C.ALL["Orthogonal"](rng, cplx=False)
    it = zoo.from_spec(s)
    return zoo.derived(rng, it, c) if rng.random() < .3 else it


def caches(m):
    """The same for operators with internal caches: longer histories and more threads."""
    it = solving(m.rng)
    m.event("operator:" + it.name)
    (threads if m.index % 2 else history)(m, it)


def threads(m, it=None):
    """Concurrent use of one operator, interleaved line by line."""
    rng = m.rng
    it = it or nonsched(m, [k for k in zoo.NAMES if k not in ("sched", "Hilbert", "Nonlinear")])
    op = it.make()
    if "Nonlinear" in it.name:      # written by the user around the state of the object
        return
    nt = int(rng.integers(2, 4))
    plans = [plan(rng, it, int(rng.integers(1, 6))) for _ in range(nt)]
    ts = steps(rng, it)
    plans = [[(c, x, ts[int(rng.integers(0, 3))]) for c, x, _ in p] for p in plans]
    want = [[invoke(it.make(), c, x.copy(), t) for c, x, t in p] for p in plans]
    iv = Interleaver(int(rng.integers(0, 2 ** 31)))
    fns = [lambda p=p: [invoke(op, c, x.copy(), t) for c, x, t in p] for p in plans]
    m.describe(op=it.name, threads=nt, calls=sum(map(len, plans)))
    res = iv.run(fns)
    m.event("switches between threads", len(iv.switches))
    if iv.switches:
        m.event("interleaved runs")
    for i, (r, w) in enumerate(zip(res, want)):
        if not m.ok(r is not None and r[0] == "ok", "concurrent calls complete", op=it.name, got=r, thread=i):
            return
        for (c, x, t), a, b in zip(plans[i], r[1], w):
            if not agree(m, it, a, b, "concurrent use gives the answers of a fresh operator", call=c, x=x, tau=t, thread=i, switches=iv.switches[-6:]):
                return
    if len(iv.switches) > 2:
        m.nontrivial(it.name, tuple(iv.switches))


# ------------------------------------------------------------------------------ solvers
REP = {**{k: v for k, v in S.ALL.items() if k not in ("TwIST", "PALM", "iPALM")}, **W.WRAPS}


def reuse(m):
    """A solver run again on the very same operator objects repeats its answer."""
    rng = m.rng
    names = list(REP)
    nm = names[m.index % len(names)]
    run = REP[nm](rng, bool(nm not in S.NOCPLX and nm != "Segment" and rng.random() < .2))
    cache = {}
    orig = S.lib

    def lib(b, s):
        key = (bool(b), id(s))
        if key not in cache:
            cache[key] = (orig(b, s), s)
        return cache[key][0]
    niter = int(rng.choice([1, 4, 11]))
    free = any(s.name == "L2[Op,b]" and not getattr(s, "explicit", True) for s in run.specs)
    S.lib = W.lib = lib
    try:
        out = []
        for _ in range(2):
            seen = []
            res = run.call(niter, lambda *a: seen.append([np.array(v, copy=True) for v in a]))
            out.append((seen, res))
    finally:
        S.lib = W.lib = orig
    m.describe(solver=run.name, niter=niter, operators=len(cache), **{k: str(v) for k, v in run.opts.items()})
    a, b = out
    if free and nm not in ("ProximalGradient", "AcceleratedProximalGradient", "Anderson", "GeneralizedProximalGradient"):
        # warm starts of the inner least squares: answers agree to its accuracy only
        m.event("runs with warm inner solvers")
        return
    if not m.ok(len(a[0]) == len(b[0]), "a repeated run takes the same number of iterations", solver=run.name, got=len(b[0]), want=len(a[0]), opts=run.opts):
        return
    for k, (u, v) in enumerate(zip(a[0], b[0])):
        for p, q in zip(u, v):
            if not m.close(q, p, "a repeated run gives the same iterates", 1e-12 * (1 + np.abs(p).max(initial=0)), solver=run.name, iteration=k + 1, opts=run.opts):
                return
    m.event("solver:" + nm)
    if len(a[0]) > 1:
        m.nontrivial(nm, a[0][-1][0].tobytes())


def returned(m):
    """What a solver handed out (iterates to the callback, results) is not touched by a later run."""
    rng = m.rng
    names = list(REP) + ["PALM", "iPALM"]
    nm = names[m.index % len(names)]
    run = {**S.ALL, **W.WRAPS}[nm](rng, bool(nm not in S.NOCPLX and nm != "Segment" and rng.random() < .2))
    niter = int(rng.choice([2, 6]))
    if nm in ("PALM", "iPALM"):
        want, und = S.ref_trace(run, niter)
        if und and not want:
            return
        niter = len(want) if und else niter
    cache = {}
    orig = S.lib
    S.lib = W.lib = lambda b, s: cache.setdefault((bool(b), id(s)), orig(b, s))
    held = []

    def hold(v):
        if isinstance(v, np.ndarray):
            held.append((v, v.tobytes()))
        elif isinstance(v, (tuple, list)):
            for u in v:
                hold(u)
    try:
        hold(run.call(niter, None))
        n1 = len(held)
        run.call(niter, None)
    finally:
        S.lib = W.lib = orig
    for i, (a, b) in enumerate(held):
        m.ok(a.tobytes() == b, "results returned by a solver never change later", solver=run.name, now=a, opts=run.opts)
    m.describe(solver=run.name, arrays=n1)
    m.event("held results", len(held))
    m.nontrivial(nm, str(run.opts))


def guesses(m):
    """Truncated inner solvers show where each solve started: with warm=False always at the
    given guess, with warm=True at the previous answer."""
    rng = m.rng
    P = C.P()
    kind = ("legacy", "cg", "cgls", "Quadratic", "Nonlinear")[m.index % 5]
    n = int(rng.integers(3, 7))
    warm = bool(rng.random() < .5)
    niter = int(rng.integers(1, 3))
    x0 = None if kind != "Nonlinear" and rng.random() < .4 else rng.standard_normal(n) * 2
    cplx = kind in ("cg", "cgls") and rng.random() < .2
    d = lambda *k: rng.standard_normal(k) + (1j * rng.standard_normal(k) if cplx else 0)
    if cplx and x0 is not None:
        x0 = x0 + 1j * rng.standard_normal(n)
    if kind == "Quadratic":
        B = rng.standard_normal((n, n))
        A = B @ B.T / n
        b = rng.standard_normal(n)
        mk = lambda g, w: P.Quadratic(Op=gen.free(A), b=b, niter=niter, x0=g, warm=w)
    elif kind == "Nonlinear":
        class Descent(P.Nonlinear):
            def fun(self, x):
                return float(np.sum(np.logaddexp(x, -x)))

            def grad(self, x):
                return np.tanh(x)

            def optimize(self):
                x = self.x0
                for _ in range(self.niter):
                    x = x - .3 * self._gradprox(x, self.tau)
                return x
        mk = lambda g, w: Descent(x0=g, niter=niter, warm=w)
    else:
        A = d(int(rng.integers(2, 7)), n)
        b = d(A.shape[0])
        s = gen.logu(rng, .3, 3)
        mk = lambda g, w: P.L2(Op=gen.free(A), b=b, sigma=s, niter=niter, x0=g, warm=w, solver=kind)
    cp = lambda v: None if v is None else np.array(v, copy=True)
    op = mk(cp(x0), warm)
    m.describe(kind=kind, warm=warm, niter=niter, x0=x0)
    g = x0
    differ = False
    for k in range(int(rng.integers(2, 6))):
        x, t = d(n) * 2, gen.step(rng, .3, 3)
        want = mk(cp(g), False).prox(x.copy(), t)
        got = np.array(op.prox(x.copy(), t), copy=True)
        m.event("truncated solves observed")
        if not m.close(got, want, "inner solve starts from " + ("the previous answer" if warm and k else "the given guess"), 1e-9 * (1 + np.abs(want).max()),
                       kind=kind, warm=warm, call=k, x=x, tau=t):
            return
        if warm:
            g = got
        if k:
            alt = mk(cp(x0) if warm else cp(got), False).prox(x.copy(), t)
            differ = differ or np.abs(alt - got).max() > 1e-6
    if differ:
        m.event("starting point visible in the answer")
        m.nontrivial(kind, warm, niter, x0 is None, n, cplx)


def layouts(m):
    """Equal arguments give equal answers, whatever their strides, order, ownership or write permission."""
    rng = m.rng
    it = zoo.pick(m)
    x = it.draw(rng, 1.)
    v = gen.layout(rng, x)
    t = gen.logu(rng, .1, 5)
    m.describe(op=it.name, x=x, tau=t, strides=v.strides, writeable=v.flags.writeable)
    calls = ["prox"] + (["value"] if it.value else []) + (["proxdual"] if it.dual else []) + (["grad"] if it.grad is not None and it.grad is not False else [])
    for c in calls:
        a, b = invoke(it.make(), c, x.copy(), t), invoke(it.make(), c, v, t)
        if not agree(m, it, b, a, "equal inputs in another memory layout give equal answers", call=c, x=x, tau=t, strides=v.strides):
            return
        m.ok(np.array_equal(v, x), "input unchanged", op=it.name, call=c)
    if v.strides != x.strides or not v.flags.writeable:
        m.nontrivial(it.name, v.strides, x.tobytes())


GROUPS = [("history", history, 900, 18000), ("mutual", mutual, 330, 6000), ("copies", copies, 330, 6000), ("threads", threads, 330, 5000), ("caches", caches, 400, 8000),
          ("reuse", reuse, 260, 4000), ("returned", returned, 200, 3000),
          ("guesses", guesses, 400, 6000), ("layouts", layouts, 900, 15000)]
