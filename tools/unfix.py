#!/usr/bin/env python3
"""For every repaired defect: undo the repair in a scratch copy and see whether the check of its property reports it.

  python3 tools/unfix.py [commit ...]      (VERIF_SEED as usual; quick tier)
A repair that later commits build on is undone by three-way merge; what does not merge is listed as such.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = set(sys.argv[1:])
for line in open(os.path.join(R, "known_findings.txt")):
    g = re.match(r"fixed: property=(P\d\d) (\w+) (.*)", line)
    if not g or (want and g[2] not in want):
        continue
    d = tempfile.mkdtemp(prefix="unfix-")
    w = os.path.join(d, "w")
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", w], check=True)
        if os.path.exists("/repo/pyproximal/version.py"):
            shutil.copy("/repo/pyproximal/version.py", w + "/pyproximal/")
        r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", g[2]], cwd=w, capture_output=True, text=True)
        if r.returncode:        # later repairs touch the same lines: take the old text of the conflicting parts
            subprocess.run(["git", "revert", "--abort"], cwd=w, capture_output=True)
            r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", "-X", "theirs", g[2]], cwd=w, capture_output=True, text=True)
        if r.returncode:
            print(g[1], g[2], "CANNOT-UNDO", g[3][:80], flush=True)
            continue
        e = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=d + "/ev", VERIF_MAX_FAILS="1")
        c = subprocess.run([os.path.join(R, "check"), g[1]], env=e, capture_output=True, text=True)
        o = [l for l in c.stdout.splitlines() if l.startswith("  ")]
        print(g[1], g[2], {0: "MISSED", 1: "reported", 2: "inconclusive"}.get(c.returncode, c.returncode), g[3][:60], "|", (o or [""])[0][:100], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
