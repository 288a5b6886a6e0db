"""Child of p15: compiled simplex engine under bounds checking or with several threads."""
import ctypes
import json
import os
import signal
import sys

ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # do not outlive the check

for k, v in zip(("NUMBA_BOUNDSCHECK", "NUMBA_NUM_THREADS"), sys.argv[1].split(",")):
    os.environ[k] = v
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402

env.prepare()
import numpy as np  # noqa: E402

import catalog as C  # noqa: E402
import gen  # noqa: E402


def main(seed, n):
    import pyproximal as P
    rng = np.random.default_rng(seed)
    seen, bad = 0, []
    for i in range(n):
        if i % 2:
            dims, axis = None, -1
            N = int(rng.integers(1, 400 if i % 8 == 1 else 12))
            rows = [np.arange(N)]
        else:
            hi = 60 if i % 8 == 0 else 8
            dims = (int(rng.integers(1, hi)), int(rng.integers(1, hi)))
            axis = int(rng.choice([0, 1, -1]))
            N = dims[0] * dims[1]
            I = np.arange(N).reshape(dims)
            rows = list(I.T) if axis == 0 else list(I)
        r = gen.logu(rng, .1, 6)
        x = gen.vec(rng, N, 1., r, False, None, False)
        if i % 5 == 0 and dims is not None:
            x = np.repeat(x, 2)[::2] if i % 10 else np.concatenate((x, x))[:N]
        try:
            y = P.Simplex(dims[0] if dims else N, r, dims=dims, axis=axis, maxiter=300, ftol=1e-12, xtol=1e-13, engine="numba").prox(x, 1.)
        except Exception as e:       # an out-of-bounds access surfaces as IndexError
            bad.append(dict(error=repr(e)[:300], dims=str(dims), axis=axis, n=N, radius=r))
            continue
        want = np.empty(N)
        for j in rows:
            want[j] = C.simplex_exact(x[j], r)
        seen += len(rows)
        err = float(np.abs(y - want).max())
        if not err <= 1e-8 * (1 + np.abs(x).max()):
            bad.append(dict(err=err, dims=str(dims), axis=axis, n=N, radius=r))
    import numba
    print("RESULT " + json.dumps(dict(rows=seen, bad=bad[:5], nbad=len(bad), threads=numba.get_num_threads(), boundscheck=bool(numba.config.BOUNDSCHECK))))


main(int(sys.argv[2]), int(sys.argv[3]))
