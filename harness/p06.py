"""P06: convex proximal steps and projections are firmly nonexpansive."""
import numpy as np

import catalog as C
import gen
from common import tau_for

PROP = "P06"
RULE = ("one case = one convex functional or set, a chain of input pairs at distances from 1e-6 to 1e4 times the branch "
        "scale; non-trivial when the two proximal points differ from each other and from their inputs")

TAB = {**C.CONVEX, **C.SETS, **C.EXTRA}


def pair_ok(m, s, x, y, p, q, tol, what, **kw):
    d, e = p - q, x - y
    lhs = float(np.sum(np.abs(d) ** 2))
    rhs = C.rdot(d, e)
    slack = tol * (float(np.linalg.norm(e)) + float(np.linalg.norm(d))) * np.sqrt(d.size) + tol * tol * d.size
    m.le(lhs, rhs, what + ": firmly nonexpansive", slack, x=x, y=y, p=p, q=q, spec=s.name, cfg=s.cfg, **kw)


def pairs(m):
    rng = m.rng
    s = C.pick(m, TAB, 0.25)
    op = s.make()
    t = tau_for(rng, s)
    if s.acc > 1e-7:
        t = gen.logu(rng, .1, 5)
    x = s.draw(rng, t)
    m.describe(spec=s.name, cfg=s.cfg, x=x, tau=t)
    p = op.prox(x.copy(), t)
    for rep in range(4):
        k = int(rng.integers(0, 4))
        sc = s.scale(x)
        if k == 0:
            y = s.draw(rng, t)
        elif k == 1:
            y = x + rng.standard_normal(x.shape) * 10.0 ** rng.uniform(-6, 0) * sc
        elif k == 2:
            y = x * float(rng.choice([-1, 0.5, 0.999, 1.001, 2]))
        else:
            y = x.copy()
            i = int(rng.integers(0, x.size))
            y.flat[i] += 10.0 ** rng.uniform(-5, 1) * rng.choice([-1, 1])
        if s.cplx and not np.iscomplexobj(y):
            y = y + 0j
        q = op.prox(y.copy(), t)
        m.event("pairs")
        tol = (1e-12 + 2 * s.acc + 1e-10) * s.scale(x, y, p, q) + s.ball_tol * 1e-2 * 0 + (1e-10 if s.ind else 0)
        pair_ok(m, s, x, y, p, q, tol, "prox", tau=t)
        pair_ok(m, s, x, y, x - p, y - q, tol, "residual", tau=t)
        if rep == 0:
            sg = 1 / t
            a, b = op.proxdual(x.copy(), sg), op.proxdual(y.copy(), sg)
            dt = sg * (1e-10 + 2 * s.acc) * s.scale(x / sg, y / sg) + 1e-10 * s.scale(x, y)
            pair_ok(m, s, x, y, a, b, dt, "dual step", sigma=sg)
        if np.any(p != q) and np.any(p != x):
            m.nontrivial(s.name, x.tobytes(), y.tobytes())
        x, p = y, q


def combined(m):
    """The inequality survives shifts, positive scalings, affine precomposition, stacking, sums, TV."""
    import pyproximal as pp
    rng = m.rng
    k = m.index % 8
    n = int(rng.integers(1, 6))
    s = C.g_simple(rng, False, n)
    v = rng.standard_normal(n)
    w = gen.logu(rng, .1, 5)
    acc = 1e-10
    if k == 0:
        op = s.make() + v
    elif k == 1:
        op = s.make() - v
    elif k == 2:
        op = w * s.make()
    elif k == 3:
        op = s.make().precomposition(float(rng.choice([-3., -1., .3, 2.])), v if rng.random() < .5 else .7)
    elif k == 4:
        s2 = C.g_simple(rng, False, n)
        op = pp.Sum([s.make(), s2.make()], niter=4000, tol=1e-13)
        acc = 1e-4
    elif k == 5:
        dims = [(n + 2,), (3, 3), (2, 4), (2, 3, 2)][int(rng.integers(0, 4))]
        n = int(np.prod(dims))
        op = pp.TV(dims, sigma=w, niter=600, rtol=1e-14)
        acc = 5e-3
    elif k == 6:
        op = (w * (s.make() + v)).precomposition(2.0, v) - v
    else:
        s2 = C.g_simple(rng)
        op = pp.VStack([s.make(), s2.make()], nn=[s.n, s2.n])
        n = s.n + s2.n
    t = gen.logu(rng, .1, 5)
    x = gen.vec(rng, n, 1.0, 1.0, extreme=False)
    y = gen.vec(rng, n, 1.0, 1.0, extreme=False)
    if rng.random() < .5:
        y = x + rng.standard_normal(n) * 10.0 ** rng.uniform(-4, 0)
    m.describe(kind=k, x=x, y=y, tau=t, spec=s.name)
    p, q = op.prox(x.copy(), t), op.prox(y.copy(), t)
    tol = acc * max(1, np.abs(x).max(), np.abs(y).max(), np.abs(v).max() * max(w, 1) * t)
    if k == 5:
        tol *= t * w
    pair_ok(m, s, x, y, p, q, tol, "combined prox", tau=t, kind=k)
    if np.any(p != q):
        m.nontrivial(k, x.tobytes(), y.tobytes())


GROUPS = [("pairs", pairs, 5400, 36000), ("combined", combined, 2400, 12000)]
