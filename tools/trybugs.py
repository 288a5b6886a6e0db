"""Run quick checks against seeded bugs in scratch copies (never in /repo).

  trybugs.py [-j N] [-a] [id ...]   -a: every check, not only the bug's own
Prints, per bug, which checks report it.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SEED = "/verif/seeded"


def one(bug, props):
    d = tempfile.mkdtemp(prefix="try_")
    t = os.path.join(d, "repo")
    res = {}
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", t], check=True)
        subprocess.run(["git", "apply", f"{SEED}/{bug}/patch.diff"], cwd=t, check=True)
        for p in props:
            env = dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=d,
                       VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            r = subprocess.run(["/verif/check", p, "--quick"], env=env, cwd="/verif", text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            line = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={p} ")]
            res[p] = "CAUGHT" if r.returncode == 1 and line else f"rc={r.returncode}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bug, res


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=1)
    a.add_argument("-a", action="store_true")
    a.add_argument("ids", nargs="*")
    o = a.parse_args()
    ids = o.ids or sorted(os.listdir(SEED))
    every = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    with ThreadPoolExecutor(o.j) as ex:
        for b, r in ex.map(lambda b: one(b, every if o.a else [b.split("-")[0]]), ids):
            own = b.split("-")[0]
            print(b, r.get(own), " ".join(k for k in r if r[k] == "CAUGHT"),
                  "" if all(v in ("CAUGHT", "rc=0") for v in r.values()) else r, flush=True)
