"""P09: non-positive steps are rejected, without side effects; positive steps are accepted."""
import copy

import numpy as np

import catalog as C
import gen
import zoo

PROP = "P09"
RULE = ("one case = one operator (basic or derived) x one random list of rejected and accepted calls; non-trivial when at least "
        "one rejected call was followed by an accepted call compared with a shadow operator that never saw the rejection")

BAD = [0, 0.0, -0.0, -1, -1.0, -1e-300, -5e-324, -1e-12, -1e30, -np.inf]
WRAP = [lambda v: v, lambda v: float(v), lambda v: np.float64(v), lambda v: np.float32(v), lambda v: np.array(float(v))]


def bad_tau(rng, n):
    k = int(rng.integers(0, 4))
    v = BAD[int(rng.integers(0, len(BAD)))]
    if k <= 1:
        with np.errstate(all="ignore"):
            return WRAP[int(rng.integers(0, len(WRAP)))](v)
    t = np.abs(rng.standard_normal(n)) + .1
    t[rng.integers(0, n)] = v
    if k == 3:
        t[rng.integers(0, n)] = -1
    return t


def call(op, step, x, t, how):
    f = getattr(op, step)
    if how == 0:
        return f(x, t)
    if how == 1:
        return f(x, tau=t)
    return f(x=x, tau=t)


def same(a, b):
    if a is None or b is None:
        return a is b
    return np.shape(a) == np.shape(b) and bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True))


def operators(m):
    rng = m.rng
    it = zoo.pick(m)
    op, shadow = it.make(), it.make()
    x = it.draw(rng)
    m.describe(op=it.name, x=x)
    n = x.size
    calls = 0
    rejected = 0
    log = []
    for _ in range(int(rng.integers(3, 8))):
        step = "prox" if rng.random() < .6 else "proxdual"
        if rng.random() < .55:
            t = bad_tau(rng, n)
            how = int(rng.integers(0, 3))
            xb = it.draw(rng)
            log.append((step, "rejected"))
            try:
                r = call(op, step, xb, t, how)
                m.ok(False, "non-positive step is rejected", op=it.name, step=step, tau=t, returned=r, how=how)
            except ValueError:
                m.ok(True, "non-positive step is rejected")
            except (TypeError, ZeroDivisionError, FloatingPointError) as e:
                m.ok(False, "non-positive step is rejected", op=it.name, step=step, tau=t, raised=repr(e), how=how)
            rejected += 1
        else:
            t = gen.tau(rng)
            if rng.random() < .3:
                t = [1, 2, 10][int(rng.integers(0, 3))]
            elif rng.random() < .3:
                t = np.float64(t)
            x = it.draw(rng)
            how = int(rng.integers(0, 2))
            a, b = call(op, step, x.copy(), t, how), call(shadow, step, x.copy(), t, 0)
            log.append((step, "accepted"))
            m.ok(same(a, b), "answers after a rejected call are as if it had not been made", op=it.name, step=step, tau=t, x=x,
                 got=a, want=b, history=log)
            calls += rejected > 0
    if it.value:
        try:
            va = op(x.copy())
        except NotImplementedError:
            va = None
        if va is not None:
            m.ok(same(np.asarray(va), np.asarray(shadow(x.copy()))), "value after rejected calls", op=it.name, x=x)
    m.ok(getattr(op, "count", None) == getattr(shadow, "count", None), "the step counter ignores rejected calls", op=it.name)
    if calls:
        m.nontrivial(it.name, x.tobytes(), len(log))


def tiny(m):
    """Every positive step is accepted, however small or large, in every numeric type."""
    rng = m.rng
    names = [k for k in C.ALL if k not in ("AffineSet", "GenericIntersectionProx", "Intersection", "Nonlinear")] + ["derived", "sched", "TV"]
    it = zoo.pick(m, names=names)
    op = it.make()
    x = it.draw(rng)
    t = [1e-12, 1e-6, 1e-3, 1, 3, 1e3, 1e6, np.float32(.5), np.float64(1e-8), np.array(.7), np.int64(2)][int(rng.integers(0, 11))]
    m.describe(op=it.name, x=x, tau=t)
    for step in ("prox", "proxdual"):
        r = call(op, step, x.copy(), t, int(rng.integers(0, 2)))
        m.ok(isinstance(r, np.ndarray) and r.size == x.size, "positive step is accepted", op=it.name, step=step, tau=t, got=r)
    m.nontrivial(it.name, x.tobytes())


def vectors(m):
    """Vector steps: positive components accepted and applied entrywise, any non-positive one rejected."""
    rng = m.rng
    n = int(rng.integers(1, 7))
    fam = [lambda: (C.P().L1(1.3), lambda x, t: C.soft(x, 1.3 * t)), lambda: (C.P().L2(sigma=.7), lambda x, t: x / (1 + .7 * t)),
           lambda: (C.P().L2(b=b, sigma=.7), lambda x, t: (x + .7 * t * b) / (1 + .7 * t)),
           lambda: (C.P().L1(.4) + b, lambda x, t: C.soft(x - t * b, .4 * t)),
           lambda: (C.P().Box(-1., 1.), lambda x, t: np.clip(x, -1, 1))]
    b = rng.standard_normal(n)
    op, ref = fam[m.index % len(fam)]()
    x = rng.standard_normal(n) * 3
    t = np.exp(rng.uniform(-3, 3, n))
    m.describe(x=x, tau=t)
    p = op.prox(x.copy(), t)
    m.close(p, ref(x, t), "vector step applied entrywise", 1e-12 * (np.abs(x).max() + np.max(t) * 4), family=m.index % len(fam), x=x, tau=t)
    d = op.proxdual(x.copy(), t)
    m.close(d, x - t * ref(x / t, 1 / t), "dual vector step applied entrywise", 1e-11 * (1 + np.abs(x).max() + np.max(t)) * max(1, 1 / t.min()),
            family=m.index % len(fam), x=x, tau=t)
    i = int(rng.integers(0, n))
    t2 = t.copy()
    t2[i] = float(rng.choice([0., -1e-20, -3.]))
    for step in ("prox", "proxdual"):
        try:
            r = getattr(op, step)(x.copy(), t2)
            m.ok(False, "a non-positive component is rejected", tau=t2, got=r)
        except ValueError:
            m.ok(True, "a non-positive component is rejected")
    m.nontrivial(m.index % len(fam), x.tobytes())


GROUPS = [("operators", operators, 4500, 30000), ("tiny", tiny, 1800, 12000), ("vectors", vectors, 900, 5000)]
