"""Reach survey: an answer is spoilt only under a rare condition; do the checks meet that condition?

  guardmut.py OUT.jsonl N SEED [name-prefix ...]

Each mutant spoils one entry of what one public operation returns, by a relative 1e-3, only when a guard on its
arguments or on the operator's history holds.  The spoiling code is appended to pyproximal/__init__.py of a scratch
copy.  Records which check reports it; what nobody reports shows a region the workloads do not reach.
"""
import inspect, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.argv, argv = sys.argv[:1], sys.argv
import importlib.util
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate.py")).read().rsplit("\nmain()", 1)[0]
ns = {}
exec(compile(src, "mutate", "exec"), ns)
props, sh = ns["props"], ns["sh"]

GUARDS = {
    "long": "x.size >= 12", "very long": "x.size >= 40", "single": "x.size == 1", "big tau": "tau > 50", "small tau": "tau < 0.02", "tau near 1": "0.9 < tau < 1.1",
    "tenth call": "st['k'] == 10", "third call": "st['k'] == 3", "same tau again": "tau == st.get('t') and st['k'] > 2", "tau decreased": "st.get('t', -1) > tau", "same x again": "st.get('x') == x.tobytes()",
    "large x": "np.abs(x).max() > 1e4", "tiny x": "0 < np.abs(x).max() < 1e-4", "has zero": "x.size > 2 and np.sum(x == 0) == 1", "all negative": "x.size > 2 and np.all(np.real(x) < 0)",
    "ties": "x.size > 2 and len(np.unique(x)) == 2", "complex pure imaginary": "np.iscomplexobj(x) and np.any(np.abs(x.real) < 1e-9 * np.abs(x))", "2-D": "x.ndim == 2", "not contiguous": "not (x.flags.c_contiguous)",
    "float32": "x.dtype == np.float32", "integer": "x.dtype.kind == 'i'", "read-only": "not x.flags.writeable", "complex": "np.iscomplexobj(x)", "sorted": "x.size > 2 and np.all(np.diff(np.abs(x)) > 0)",
    "first dominates": "x.size > 2 and np.abs(x[0]).max() > 20 * np.abs(x[1:]).max() > 0", "last zero": "x.size > 2 and not np.any(x[-1]) and np.any(x)", "x zero": "not np.any(x)", "wide spread": "np.abs(x).max() > 1e5 * np.abs(x).min() > 0",
    "integer tau": "isinstance(tau, (int, np.integer))", "odd size": "x.size % 7 == 5", "tau equal 1": "tau == 1.0",
}
CODE = '''
def _spoil():
    import importlib
    import numpy as np
    mod = importlib.import_module({mod!r})
    cls = getattr(mod, {cls!r})
    orig = cls.__dict__[{meth!r}]
    import weakref
    S = weakref.WeakKeyDictionary()

    def new(self, x, tau=1.0, *a, **k):
        st = S.setdefault(self, dict(k=0))
        if not isinstance(x, np.ndarray) or not x.size or x.dtype.kind not in "fciu" or np.ndim(tau):
            return orig(self, x, *(() if {notau} else (tau,)), *a, **k)
        st["k"] += 1
        with np.errstate(all="ignore"):
            try:
                hit = bool({guard})
            except (TypeError, ValueError):
                hit = False
            xb = x.tobytes()
        r = orig(self, x, *(() if {notau} else (tau,)), *a, **k)
        st["t"], st["x"] = tau, xb
        if hit:
            if isinstance(r, np.ndarray) and r.size:
                r = np.array(r)
                f = r.reshape(-1)
                j = int(np.argmax(np.abs(f)))
                f[j] = f[j] * (1 + 1e-3) + (0 if f[j] else 1e-3)
            elif isinstance(r, (float, np.floating)):
                r = r * (1 + 1e-3)
            elif isinstance(r, (bool, np.bool_)):
                r = not r
        return r
    setattr(cls, {meth!r}, new)


_spoil()
'''


def targets():
    sys.path.insert(0, "/repo")
    import pyproximal, pyproximal.proximal as pr, pyproximal.projection as pj
    import pyproximal.ProxOperator as po
    out = []
    for name, c in sorted({**vars(pr), **vars(pj)}.items()):
        if inspect.isclass(c):
            for m in ("prox", "proxdual", "grad", "__call__"):
                if m in c.__dict__:
                    out.append((c.__module__, name, m))
    for name in ("_AdjointOperator", "_SumOperator", "_ChainOperator", "_PrecompositionOperator", "_PostcompositionOperator"):
        c = getattr(po, name, None)
        if c:
            for m in ("prox", "proxdual", "grad", "__call__"):
                if m in c.__dict__:
                    out.append((c.__module__, name, m))
    return out


def one(job):
    (mod, cls, meth), gname = job
    d = tempfile.mkdtemp(prefix="gm_")
    try:
        sh(f"cp -a /repo {d}/repo", "/")
        t = d + "/repo"
        notau = meth in ("grad", "__call__")
        with open(t + "/pyproximal/__init__.py", "a") as f:
            f.write(CODE.format(mod=mod, cls=cls, meth=meth, guard=GUARDS[gname], notau=notau))
        rel = mod.split("pyproximal.", 1)[1].replace(".", "/") + ".py"
        first = {"grad": ["P07"], "__call__": ["P04"], "proxdual": ["P05"], "prox": []}[meth]
        checks = first + [p for p in props(rel) if p not in first]
        res = dict(target=f"{cls}.{meth}", guard=gname, caught=None)
        for c in checks:
            r = sh(f"./check {c}", "/verif", timeout=400, VERIF_REPO=t, VERIF_EVIDENCE=d, VERIF_MAX_FAILS="1")
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                res["caught"] = c
                break
            if r.returncode not in (0, 1):
                res["caught"] = c + "?"
                break
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, N, seed = argv[1], int(argv[2]), int(argv[3])
    pre = argv[4:]
    jobs = [(t, g) for t in targets() for g in GUARDS if not (("tau" in g) and t[2] in ("grad", "__call__")) and (not pre or any(t[1].startswith(p) for p in pre))]
    random.Random(seed).shuffle(jobs)
    print(len(jobs), "mutants possible", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "3"))) as ex:
        for r in ex.map(one, jobs[:N]):
            with open(out, "a") as f:
                f.write(json.dumps(r) + "\n")
            if not r["caught"] or "?" in r["caught"]:
                print(r, flush=True)


main()
