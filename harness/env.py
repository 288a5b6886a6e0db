"""Make the harness import pyproximal from /repo's working tree and nothing else."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def prepare():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ.setdefault(k, "1")
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.WARNING)
    import pyproximal
    got = os.path.realpath(os.path.dirname(os.path.dirname(pyproximal.__file__)))
    if got != os.path.realpath(REPO):
        print(f"pyproximal was imported from {got}, not from {REPO}")
        sys.exit(3)
    return pyproximal
