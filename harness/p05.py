"""P05: Moreau decomposition and dual proximal steps."""
import numpy as np

import catalog as C
import gen
from common import tau_for, tol_for, competitors

PROP = "P05"
RULE = ("one case = one convex functional or set with drawn options, one point and one step; non-trivial when both the "
        "proximal and the dual part are non-zero")

TAB = {**C.CONVEX, **C.SETS, **C.EXTRA}


def step_for(rng, s):
    return gen.logu(rng, 0.1, 10) if (s.acc > 1e-7 or not s.extreme) else gen.tau(rng)


def moreau(m):
    rng = m.rng
    s = C.pick(m, TAB, 0.25)
    op = s.make()
    for rep in range(2):
        t = step_for(rng, s)
        x = s.draw(rng, t)
        m.describe(spec=s.name, cfg=s.cfg, x=x, tau=t)
        p = op.prox(x.copy(), t)
        d = op.proxdual(x / t, 1.0 / t)
        m.event("pairs")
        if not (isinstance(d, np.ndarray) and d.shape == x.shape):
            m.ok(False, "the dual step has the shape of its input", got=getattr(d, "shape", type(d)), spec=s.name)
            return
        sc = s.scale(x, p)
        tol = 2 * tol_for(s, x, p) + 2 * s.ball_tol
        m.close(p + t * d, x, "prox + tau*dualprox = input", tol + 1e-10 * sc, x=x, tau=t, spec=s.name, cfg=s.cfg)
        # the dual step against an independent conjugate step
        sg = step_for(rng, s)
        y = s.draw(rng, 1 / sg) * (sg if rng.random() < .5 else 1.0)
        dd = op.proxdual(y.copy(), sg)
        if s.prox is not None:
            ref = y - sg * s.prox(y / sg, 1 / sg)
            ysc = s.scale(y / sg)
            m.close(dd, ref, "the dual step is the proximal step of the conjugate",
                    sg * (2 * (C.TOL + s.acc) * ysc + s.ball_tol) + 1e-10 * s.scale(y), y=y, sigma=sg, spec=s.name, cfg=s.cfg)
        if np.any(p) and np.any(np.abs(d) > 1e-12):
            m.nontrivial(s.name, x.tobytes(), t)
        if rep == 0:
            # dual view swaps the two
            H = op.H
            h1, h2 = H.prox(y.copy(), sg), H.proxdual(x.copy(), t)
            tl = 1e-12 if s.acc <= 1e-7 else 2 * (C.TOL + s.acc)
            m.close(h1, dd, "the dual view's prox is the dual step", tl * max(1, sg) * s.scale(y / sg, y) * 3, y=y, sigma=sg, spec=s.name)
            m.close(h2, p, "the dual view's dual step is the prox", tl * 3 * sc, x=x, tau=t, spec=s.name)
            m.close(H.H.prox(x.copy(), t), p, "the dual of the dual view is the operator", tl * 3 * sc, x=x, tau=t, spec=s.name)


def subgradient(m):
    """x-prox(x) is tau times a subgradient at prox(x), and prox(x) a subgradient of the conjugate there."""
    rng = m.rng
    s = C.pick(m, {k: v for k, v in TAB.items() if k != "QERank"}, 0.25)
    if not s.cvx:
        return
    op = s.make()
    t = step_for(rng, s)
    x = s.draw(rng, t)
    m.describe(spec=s.name, cfg=s.cfg, x=x, tau=t)
    z = op.proxdual(x / t, 1.0 / t)       # subgradient
    u = x - t * z                           # point
    if s.ind:
        m.le(s.dist(u), 0, "complement of the dual step is feasible", 2 * tol_for(s, x) + 2 * s.ball_tol, x=x, tau=t, spec=s.name, cfg=s.cfg)
        fu = 0.0
    else:
        fu = s.f(u)
        if "Box" in s.name and not np.isfinite(fu):
            return
    qs = competitors(rng, s, x, u, t, 0)[:8] if s.ind else competitors(rng, s, x, u, t, 12)
    for q in qs:
        fq = 0.0 if s.ind else s.f(q)
        sc = s.scale(x, u)
        slack = 1e-9 * (abs(fu) + (abs(fq) if np.isfinite(fq) else 0)) + (C.TOL + s.acc + s.ball_tol) * 20 * (
            (float(np.linalg.norm(z)) + sc / t + sc) * (float(np.linalg.norm(q - u)) + (C.TOL + s.acc) * sc) + s.acc * sc) + 1e-12 * sc * (1 + float(np.linalg.norm(z)))
        if "Box" in s.name:
            slack += 1e-8 * sc * (np.linalg.norm(z) + 1) * z.size
        m.le(fu + C.rdot(z, q - u), fq, "Fenchel-Young: the dual step is a subgradient", slack, q=q, x=x, u=u, z=z, tau=t, spec=s.name, cfg=s.cfg)
    if np.any(np.abs(z) > 1e-12):
        m.nontrivial(s.name, x.tobytes(), t)


def derived(m):
    """User operators defining only one of the two steps, combined operators, vector steps."""
    import pyproximal as pp
    rng = m.rng
    k = m.index % 4
    n = int(rng.integers(1, 6))
    s = C.g_simple(rng, False, n)
    t = gen.logu(rng, .02, 50)
    x = s.draw(rng, t)
    m.describe(spec=s.name, cfg=s.cfg, x=x, tau=t, kind=k)
    base = s.make()
    sc = s.scale(x)

    if k == 0:
        class OnlyDual(pp.ProxOperator):
            def __init__(self):
                super().__init__(None, False)
                self.got = []

            def proxdual(self, y, sigma, **kw):
                self.got.append(kw)
                return y - sigma * s.prox(y / sigma, 1 / sigma)
        o = OnlyDual()
        m.close(o.prox(x.copy(), t), s.prox(x, t), "prox derived from a dual step", 1e-9 * sc, x=x, tau=t, spec=s.name)
        m.close(o.H.proxdual(x.copy(), t), s.prox(x, t), "dual view of an operator with only a dual step", 1e-9 * sc, x=x, tau=t, spec=s.name)
        m.close(o.prox(x.copy(), t, flag=3), s.prox(x, t), "derived prox with options", 1e-9 * sc, x=x, tau=t, spec=s.name)
        m.ok(o.got[-1] == dict(flag=3), "options reach the user's dual step", got=o.got)
    elif k == 1:
        class OnlyProx(pp.ProxOperator):
            def __init__(self):
                super().__init__(None, False)
                self.got = []

            def prox(self, y, tau, **kw):
                self.got.append(kw)
                return s.prox(y, tau)
        o = OnlyProx()
        ref = x - t * s.prox(x / t, 1 / t)
        ds = max(sc, t * s.scale(x / t))
        m.close(o.proxdual(x.copy(), t), ref, "dual step derived from a prox", 1e-9 * ds, x=x, tau=t, spec=s.name)
        m.close(o.H.prox(x.copy(), t), ref, "dual view of an operator with only a prox", 1e-9 * ds, x=x, tau=t, spec=s.name)
        o.proxdual(x.copy(), t, flag=4)
        m.ok(o.got[-1] == dict(flag=4), "options reach the user's prox", got=o.got)
    elif k == 2:
        v = rng.standard_normal(n)
        w = gen.logu(rng, .2, 4)
        a = float(rng.choice([-2., -.5, .5, 1.5]))
        o = [lambda: base + v, lambda: base - v, lambda: w * base, lambda: base.precomposition(a, v),
             lambda: base.precomposition(a, 0.3), lambda: w * (base + v)][int(rng.integers(0, 6))]()
        p = o.prox(x.copy(), t)
        d = o.proxdual(x / t, 1 / t)
        m.close(p + t * d, x, "prox + tau*dualprox = input (combined operator)", 1e-9 * s.scale(x, p) + 1e-9 * np.abs(v).max() * t, x=x, tau=t, spec=s.name)
        m.close(o.H.prox(x / t, 1 / t), d, "dual view of a combined operator", 1e-10 * max(1, 1 / t) * s.scale(x, p), x=x, tau=t, spec=s.name)
    else:
        for _ in range(50):
            s = C.g_l1(rng) if rng.random() < .5 else C.g_l2(rng, which=int(rng.integers(0, 2)))
            if s.vectau and len(s.shape) == 1:
                break
        else:
            return
        n = s.n
        tv = np.array([gen.logu(rng, .1, 10) for _ in range(n)])
        x = s.draw(rng, float(tv[0]))
        o = s.make()
        p = o.prox(x.copy(), tv.copy())
        d = o.proxdual(x / tv, 1 / tv)
        m.close(p + tv * d, x, "prox + tau*dualprox = input (vector step)", 1e-8 * s.scale(x, p), x=x, tau=tv, spec=s.name)
        m.close(p, s.prox(x, tv), "vector step prox", 1e-8 * s.scale(x, p), x=x, tau=tv, spec=s.name)
    m.nontrivial(k, s.name, x.tobytes())


GROUPS = [("moreau", moreau, 6000, 30000), ("subgradient", subgradient, 4000, 20000), ("derived", derived, 2800, 12000)]
