"""P16: the proximal-gradient family follows its documented recursion, iterate by iterate."""
import numpy as np

import gen
import solvers as S

PROP = "P16"
RULE = ("one case = one solver run with random problem, options, start and 1 to 60 iterations, every callback iterate compared with "
        "a second implementation of the documented recursion; non-trivial when at least two distinct iterates were compared")


def steps(rng):
    return int(rng.choice([1, 2, 3, 5, 8, 13, 25, 60])) if rng.random() > .012 else 150


def follow(m, table, cplx=.2):
    run = S.pick(m, table, cplx)
    seen, res, want, und = S.lockstep(m, run, steps(m.rng))
    if m.fails:
        return run, seen, res, want
    if seen:
        r = run.ret(res)
        for j in range(min(len(r), run.ncb)):
            m.close(np.asarray(r[j]), seen[-1][j], "the result is the last iterate", 0, solver=run.name, opts=run.opts)
        if len(seen) > 1 and np.any(seen[0][0] != seen[-1][0]):
            m.nontrivial(run.name, seen[-1][0].tobytes(), str(run.opts))
    return run, seen, res, want


def family(m):
    run, seen, res, want = follow(m, S.PG)
    if run.name == "TwIST" and run.data["cost"] and not m.fails:
        j = res[1]
        ref = np.array([run.data["fcost"](s[0]) for s in seen])
        m.close(j, ref, "TwIST cost history", 1e-8 * (1 + np.abs(ref).max()), opts=run.opts)


GROUPS = [("family", family, 7000, 25000)]
