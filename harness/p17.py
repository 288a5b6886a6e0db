"""P17: splitting solvers follow their documented recursion, iterate by iterate."""
import numpy as np

import solvers as S
from p16 import follow

PROP = "P17"
RULE = ("one case = one solver run with random problem, options, starts and 1 to 60 iterations, every callback iterate and the returned "
        "auxiliary variables compared with a second implementation of the documented recursion; non-trivial when at least two "
        "distinct iterates were compared")


def family(m):
    run, seen, res, want = follow(m, S.SPLIT)
    if m.fails or not want:
        return
    r = run.ret(res)
    if len(r) > 1 and len(seen) == len(want):
        # the auxiliary variable is returned even when the callback does not show it
        sc = 1 + max(float(np.abs(v).max()) for v in want[-1])
        pert, _ = S.ref_trace(run, len(want), pert=1e-11)
        sens = float(np.abs(pert[-1][1] - want[-1][1]).max()) if len(pert) == len(want) else np.inf
        if 1e4 * sens < 1e-3 * sc:
            m.close(np.asarray(r[1]), want[-1][1], "returned auxiliary variable", sc * run.tie * (1 + len(want) / 10) + 1e4 * sens, solver=run.name, opts=run.opts)


GROUPS = [("family", family, 7000, 25000)]
