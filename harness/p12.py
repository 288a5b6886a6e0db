"""P12: parameter schedules advance exactly once per proximal step."""
import numpy as np

import catalog as C
import gen
import solvers as S
import zoo

PROP = "P12"
RULE = ("one case = one operator with a scheduled parameter driven through a counted history of steps, evaluations and rejected calls (or used inside a "
        "solver), each answer compared with an operator configured with the constant value scheduled for that position; non-trivial when at least two "
        "positions were reached")


def fresh_call(op, call, x, t):
    return op(x) if call == "value" else getattr(op, call)(x, t)


TOLS = {"L2": 1e-9, "TV": 1e-12}


def same(m, it, a, b, what, **kw):
    if a is None or isinstance(a, (bool, np.bool_)):
        return m.ok(a == b and type(a) is type(b), what, op=it.name, got=a, want=b, **kw)
    b = np.asarray(b)
    return m.close(np.asarray(a), b, what, TOLS.get(it.kind, 1e-13) * (1 + float(np.abs(b).max(initial=0))), op=it.name, **kw)


def owndual(it):
    return it.kind in ("L1", "L1array")


def direct(m):
    """Random histories on the operator itself: prox k uses value k, everything else reads the current position."""
    rng = m.rng
    kinds = zoo.SCHED
    it = zoo.scheduled(rng, kinds[m.index % len(kinds)], bool(rng.random() < .2))
    log = it.logs
    del log[:]
    op = it.make()
    g = getattr(op, "g", None) is not None
    m.ok(all(k == 0 for k in log), "construction reads at most the start of the schedule", op=it.name, got=log)
    pos = 0
    hist = []
    m.describe(op=it.name, schedule=it.vals)
    for _ in range(int(rng.integers(4, 14))):
        u = rng.random()
        x = it.draw(rng)
        t = gen.logu(rng, .1, 5)
        del log[:]
        if u < .5:
            pos += 1
            y = op.prox(x.copy(), t) if rng.random() < .7 else op.prox(x.copy(), tau=t)
            if not same(m, it, y, it.ref(pos).prox(x.copy(), t), "the k-th step uses the value scheduled for k", k=pos, x=x, tau=t, history=hist):
                return
            m.ok(set(log) <= {pos} and log, "the schedule is asked for the position of the step", op=it.name, got=log, want=pos, history=hist)
            hist.append("prox")
        elif u < .65:
            try:
                y = op(x.copy())
            except NotImplementedError:
                continue
            want = it.ref(pos)(x.copy())
            if not same(m, it, y, want, "values use the position reached so far", k=pos, x=x, history=hist):
                return
            m.ok(set(log) <= {pos}, "a value reads the current position", op=it.name, got=log, want=pos, history=hist)
            hist.append("value")
        elif u < .85:
            bad = [0, -1., -1e-300, 0.][int(rng.integers(0, 4))]
            try:
                getattr(op, "prox" if rng.random() < .7 or (not owndual(it)) else "proxdual")(x.copy(), bad)
                m.ok(False, "rejected", op=it.name)
            except ValueError:
                pass
            m.ok(not log, "a rejected call does not read the schedule", op=it.name, got=log, history=hist)
            hist.append("rejected")
        elif owndual(it) and not g:
            y = op.proxdual(x.copy(), t)
            if not same(m, it, y, it.ref(pos).proxdual(x.copy(), t), "a closed-form dual step uses the position reached so far", k=pos, x=x, tau=t, history=hist):
                return
            hist.append("dual")
        elif it.kind == "L2":
            op.grad(x.copy())
            m.ok(not log, "a gradient does not touch the schedule", op=it.name, got=log)
            hist.append("grad")
        m.event("call:" + (hist[-1] if hist else "none"))
    m.event("kind:" + it.kind)
    if pos > 1:
        m.nontrivial(it.kind, tuple(hist), pos, x.tobytes())


def wrap(rng, mk, x, k):
    """The same combinator around any operator."""
    v = rng.standard_normal(x.shape)
    c = gen.logu(rng, .2, 4)
    a = float(rng.choice([-2., .5, 3.]))
    n = x.size
    if k == 0:
        return "+v", lambda o: o + v, x
    if k == 1:
        return "-v", lambda o: o - v, x
    if k == 2:
        return "c*", lambda o: c * o, x
    if k == 3:
        return "(ax+b)", lambda o: o.precomposition(a, v), x
    if k == 4:
        q = 2
        if x.ndim > 1:
            return "+v", lambda o: o + v, x
        extra = rng.standard_normal(q)
        xx = np.concatenate([x, extra])
        return "VStack", lambda o: C.P().VStack([o, C.P().L1(.3)], nn=[n, q]), xx
    if k == 5:
        if x.ndim > 1:
            return "c*", lambda o: c * o, x
        Q = gen.orth(rng, n)
        return "Orthogonal", lambda o: C.P().Orthogonal(o, gen.dense(Q)), x
    if k == 6:
        if x.ndim > 1:
            return "-v", lambda o: o - v, x
        return "chain", lambda o: o.chain(C.P().L1(.2)), x
    return "c*(+v)", lambda o: c * (o + v), x


def derived(m):
    """Combinators take exactly one step of their scheduled ingredient per step of their own."""
    rng = m.rng
    it = zoo.scheduled(rng, zoo.SCHED[m.index % len(zoo.SCHED)])
    seed = int(rng.integers(0, 2 ** 31))
    x0 = it.draw(rng)
    kw = int(rng.integers(0, 8))
    nm, w, _ = wrap(np.random.default_rng(seed), None, x0, kw)
    op = w(it.make())
    log = it.logs
    m.describe(op=it.name, wrapper=nm, schedule=it.vals)
    K = int(rng.integers(2, 6))
    for k in range(1, K + 1):
        x = it.draw(rng)
        _, _, xx = wrap(np.random.default_rng(seed + k), None, x, kw)
        t = gen.logu(rng, .1, 4)
        del log[:]
        if rng.random() < .3:
            try:
                op.prox(xx.copy(), -1.)
                m.ok(False, "rejected", op=it.name)
            except ValueError:
                m.ok(not log, "a rejected call does not read the schedule", op=nm + " " + it.name, got=log)
        y = op.prox(xx.copy(), t)
        want = w(it.ref(k)).prox(xx.copy(), t)
        if not same(m, it, y, want, "the k-th step of a derived operator uses the value scheduled for k", wrapper=nm, k=k, x=xx, tau=t):
            return
        m.ok(set(log) == {k}, "one position per step of a derived operator", op=it.name, wrapper=nm, got=log, want=k)
    m.event("wrapper:" + nm)
    m.nontrivial(it.kind, nm, xx.tobytes())


class Sched(C.Spec):
    """A scheduled functional with a reference that counts its own steps."""


def spec(rng, n, cplx=False):
    L = int(rng.integers(2, 7))
    k = int(rng.integers(0, 3))
    v = [gen.logu(rng, .1, 3) for _ in range(L)]
    log = []
    st = dict(k=0)
    if k == 2:
        ka = gen.logu(rng, .5, 3)
        make = lambda: C.P().RelaxedMumfordShah(zoo.sched_fn(rng, v, log), ka)

        def prox1(x, t, s):
            thr = np.sqrt(ka / s * (1 + 2 * t * s))
            if np.any(np.abs(np.abs(x) - thr) < 1e-7 * (1 + thr)):
                raise S.Undecided()
            return np.where(np.abs(x) <= thr, x / (1 + 2 * t * s), x)
        f1 = lambda x, s: float(min(s * np.sum(np.abs(x) ** 2), ka))
        k = 1
        nm = "RMS"
        k = 2
    elif k == 1:
        v = [int(q) for q in rng.integers(1, n + 1, L)]
        make = lambda: C.P().L0Ball(zoo.sched_fn(rng, v, log))

        def prox1(x, t, r):
            y = x.copy()
            o = np.argsort(np.abs(x))
            if 0 < r < n:
                a, b = np.abs(x[o[n - r - 1]]), np.abs(x[o[n - r]])
                if b > 0 and b - a < 1e-7 * (1 + b):      # either answer is right
                    raise S.Undecided()
            y[o[: max(n - r, 0)]] = 0
            return y
        f1 = lambda x, r: 0. if np.count_nonzero(x) <= r else np.inf
        nm = "L0Ball"
    else:
        make = lambda: C.P().L1(sigma=zoo.sched_fn(rng, v, log))
        prox1 = lambda x, t, s: C.soft(x, t * s)
        f1 = lambda x, s: s * float(np.abs(x).sum())
        nm = "L1"

    def prox(x, t):
        st["k"] += 1
        return prox1(x, t, v[st["k"] % L])
    s = C.Spec("sched:" + nm, make, n, lambda x: f1(x, v[st["k"] % L]), prox, cplx=cplx, ind=nm == "L0Ball")
    s.reset = lambda: st.update(k=0)
    s.pos = lambda: st["k"]
    s.log = log
    s.jump = nm != "L1"
    return s


TABLE = {k: v for k, v in S.ALL.items() if k not in ("MultiRHS", "TwIST", "PALM", "iPALM")}


def solvers(m):
    """Scheduled functionals inside every solver: the run follows the recursion with one value per proximal step."""
    rng = m.rng
    names = list(TABLE)
    nm = names[m.index % len(names)]
    cplx = bool(nm not in S.NOCPLX and rng.random() < .15)
    sp = spec(rng, int(rng.integers(2, 6)), cplx)
    if sp.jump and rng.random() < .6:
        while sp.jump:
            sp = spec(rng, sp.n, cplx)
    kw = {"f": sp} if nm in ("PrimalDual", "AdaptivePrimalDual") else {"g": sp}
    run = TABLE[nm](rng, cplx, **kw)
    niter = int(rng.choice([1, 2, 5, 12]))
    over = {}
    if run.tol is not None and (sp.ind or sp.jump):
        if nm != "AdaptivePrimalDual":
            over["tol"] = None if nm not in ("PPXA", "ConsensusADMM") else 0.
    m.describe(solver=nm, g=sp.name, niter=niter, **{k: str(v) for k, v in run.opts.items() if k != "g"})
    S.lockstep(m, run, niter, **over)
    if m.fails:
        return
    want, und = S.ref_trace(run, niter, **over)
    if und:
        return
    pos = sp.pos()
    del sp.log[:]
    S.trace(run, niter, **over)
    lg = [k for k in sp.log if k > 0]
    m.ok(max(lg, default=0) == pos, "after a run the schedule stands at the number of proximal steps taken", solver=nm, got=max(lg, default=0), want=pos, opts=run.opts)
    m.ok(all(b - a in (0, 1) for a, b in zip(lg, lg[1:])), "positions advance one by one", solver=nm, got=lg[:40])
    m.event("solver:" + nm)
    if pos > 1:
        m.nontrivial(nm, sp.name, str(run.opts), niter)


GROUPS = [("direct", direct, 2400, 12000), ("derived", derived, 1760, 8000), ("solvers", solvers, 1680, 7000)]
