"""Rewrite the generated tail of DESIGN.md (findings, seeded bugs) from known_findings.txt and seeded/*/meta.json."""
import glob
import json
import os
import re

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(R, "DESIGN.md")
MARK = "## 4. Findings"
head = open(D).read().split(MARK)[0].rstrip()
out = [head, "", MARK, "",
       "Generated by tools/mkdesign.py from known_findings.txt. Repaired in /repo by small `fix:`",
       "commits (tools/unfix.py undoes each in a scratch clone and confirms that the property's check",
       "reports it again):", ""]
fx, kn = [], []
for l in open(os.path.join(R, "known_findings.txt")):
    g = re.match(r"fixed: property=(P\d\d) (\w+) (.*)", l)
    if g:
        fx.append(f"| {g[1]} | {g[2]} | {g[3]} |")
    elif l.strip() and not l.startswith("#"):
        kn.append("- " + l.strip())
out += ["| property | commit | what failed |", "|---|---|---|", *sorted(fx), "", "Recorded, not repaired:", "", *kn, ""]
out += ["## 5. Seeded bugs", "",
        "Each was written from the property text and the code, applies to original lines, passes the stable",
        "tests and has a discriminating demonstration (tools/plant.py). Every one is reported by the quick",
        "check of its own property (tools/trybugs.py, VERIF_SEED=1).", "",
        "| bug | what it breaks | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} |")
tail = os.path.join(R, "DESIGN_TAIL.md")
if os.path.exists(tail):
    out += ["", open(tail).read().rstrip()]
open(D, "w").write("\n".join(out) + "\n")
