"""P01: proximal step of a convex functional is the true minimiser."""
import numpy as np

import catalog as C
import gen
from common import check_prox, nontriv, tau_for

PROP = "P01"
RULE = ("one case = one functional with drawn options, one input and one step (vector steps where accepted); "
        "non-trivial when the returned point differs from the input and from zero")


def run(m, table, frac):
    s = C.pick(m, table, frac)
    t = tau_for(m.rng, s)
    op = s.make()
    for rep in range(3):
        x = s.draw(m.rng, t)
        m.describe(spec=s.name, cfg=s.cfg, x=x, tau=t)
        p = op.prox(x.copy(), t)
        m.event("prox calls")
        check_prox(m, s, x, t, p)
        if isinstance(p, np.ndarray) and p.shape == x.shape:
            nontriv(m, s, x, p, t)
        if s.acc > 1e-6:
            break
        if rep == 0 and m.rng.random() < .5:
            op = s.make()
        t = tau_for(m.rng, s)


def functionals(m):
    run(m, C.CONVEX, 0.25)


def sets(m):
    run(m, C.SETS, 0.15)


def rank_misfit(m):
    run(m, C.EXTRA, 0.3)


def vector_steps(m):
    """Separable functionals with one step per entry equal entrywise calls."""
    rng = m.rng
    n = int(rng.integers(2, 7))
    taus = np.array([gen.logu(rng, .05, 10) for _ in range(n)])
    k = m.index % 3
    for _ in range(100):
        s = C.g_l1(rng) if k == 0 else C.g_l2(rng, which=k - 1)
        if s.n == n and s.vectau:
            break
    else:
        return
    x = s.draw(rng, float(taus[0]))
    p = s.make().prox(x.copy(), taus.copy())
    m.close(p, s.prox(x, taus), "vector of steps: equals the entrywise minimiser", 1e-9 * s.scale(x), x=x, tau=taus, spec=s.name)
    nontriv(m, s, x, p, 0)
    m.describe(spec=s.name, x=x, tau=taus)


GROUPS = [("functionals", functionals, 12000, 60000), ("sets", sets, 2400, 10000),
          ("rank-misfit", rank_misfit, 800, 4000), ("vector-steps", vector_steps, 800, 3000)]
