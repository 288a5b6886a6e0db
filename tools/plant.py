"""Plant, confirm and try bugs.  A batch file defines BUGS = [dict(id, prop,
edits=[(file, old, new), ...], demo=python source, needs, breaks)].

  plant.py BATCH.py [id ...]   make /verif/seeded/<id>/ when the change applies
                               to original lines, passes the stable tests, and
                               its demonstration fails with it and passes without
  plant.py --try [id ...]      apply each kept bug in /repo, run the quick check
                               of its property, undo
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SEED = "/verif/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export NUMBA_NUM_THREADS=1 NUMBA_CACHE_DIR=$(mktemp -d)
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
PYTHONPATH="$PWD" timeout 250 python "$here/demo.py"
"""


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          env=dict(os.environ, **env))


def original(tree, path):
    """Line numbers of path at HEAD that come from the original repository."""
    out = sh(f"git blame -s --root -l {path}", "/repo").stdout.splitlines()
    root = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.split()[0]
    return {i + 1 for i, l in enumerate(out) if l[:40] == root or l.startswith("^")}


def plant(b):
    d = tempfile.mkdtemp(prefix="plant_")
    t = os.path.join(d, "repo")
    try:
        sh(f"cp -a /repo {t}", "/")
        for f, old, new in b["edits"]:
            p = os.path.join(t, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return b["id"], f"BAD EDIT {f}: {s.count(old)} matches"
            open(p, "w", newline="").write(s.replace(old, new))
        patch = subprocess.run("git diff", cwd=t, shell=True, stdout=subprocess.PIPE).stdout
        # original lines only
        for f in {e[0] for e in b["edits"]}:
            org = original(t, f)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git diff -U0 {f}", t).stdout, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                bad = [i for i in range(a, a + n) if i not in org]
                if bad:
                    return b["id"], f"TOUCHES FIX LINES {f} {bad}"
        out = os.path.join(d, "seed")
        os.makedirs(out)
        open(out + "/patch.diff", "wb").write(patch)
        open(out + "/demo.py", "w").write(b["demo"])
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(out + "/meta.json", "w"), indent=1)
        r0 = sh(f"bash {out}/demo.sh", "/repo")
        if r0.returncode:
            return b["id"], "DEMO FAILS ON CLEAN TREE\n" + r0.stdout[-800:]
        r1 = sh(f"bash {out}/demo.sh", t)
        if not r1.returncode:
            return b["id"], "DEMO PASSES WITH BUG\n" + r1.stdout[-400:]
        if "AssertionError" not in r1.stdout and not b.get("crash"):
            return b["id"], "DEMO FAILS ODDLY\n" + r1.stdout[-800:]
        r = sh(". /opt/vp/env.sh; PYTHONPATH=$PWD python -m pytest -q -x -p no:cacheprovider "
               "--junitxml=../rep.xml -o junit_family=xunit2 pytests; "
               "python3 /opt/vp/results.py ../res.json junit:../rep.xml", t)
        res = json.load(open(d + "/res.json"))
        passed = set(res.get("passed", res.get("pass", [])))
        miss = [x for x in BASE if x not in passed]
        if miss:
            return b["id"], f"TESTS FAIL {miss[:3]}"
        dst = os.path.join(SEED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return b["id"], "KEPT"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(a):
    if a and a[0] == "--try":
        tier = "--thorough" if a[1:2] == ["-t"] else ""
        ids = [x for x in a[1:] if x != "-t"] or sorted(os.listdir(SEED))

        def one(i):
            meta = json.load(open(f"{SEED}/{i}/meta.json"))
            d = tempfile.mkdtemp(prefix="try_")
            try:
                sh(f"cp -a /repo {d}/repo", "/")
                r = sh(f"git apply {SEED}/{i}/patch.diff", d + "/repo")
                if r.returncode:
                    return i, meta["property"], "PATCH DOES NOT APPLY"
                r = sh(f"./check {meta['property']} {tier}", "/verif", VERIF_REPO=d + "/repo",
                       VERIF_EVIDENCE=d)
                hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                return i, meta["property"], ("CAUGHT" if r.returncode == 1 and hit else f"MISSED rc={r.returncode}")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        with ThreadPoolExecutor(2) as ex:
            for x in ex.map(one, ids):
                print(*x, flush=True)
        return
    ns = {}
    exec(open(a[0]).read(), ns)
    bugs = [b for b in ns["BUGS"] if not a[1:] or b["id"] in a[1:]]
    with ThreadPoolExecutor(4) as ex:
        for i, s in ex.map(plant, bugs):
            print(i, s, flush=True)


main(sys.argv[1:])
