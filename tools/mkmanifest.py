#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check module is claimed."""
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "runtime oracle on prox results: independent minimiser, competitor search, optimality inequality",
 "P02": "runtime oracle on prox results: global 1-D search and brute-force minimisation",
 "P03": "runtime oracle on projections: feasibility, variational inequality, independent nearest point",
 "P04": "runtime oracle on values and membership: independent definitions",
 "P05": "runtime oracle: Moreau identity, conjugate prox, Fenchel-Young over observed calls",
 "P06": "pairwise inequality monitor over observed prox calls",
 "P07": "numerical-derivative monitor over observed gradients",
 "P08": "random expression trees, composed reference functional as oracle",
 "P09": "exception monitor with shadow operator after rejected calls",
 "P10": "array sanitizer: byte snapshots, write protection, aliasing operators",
 "P11": "history monitor: twin-operator oracle over random call histories and threads",
 "P12": "schedule call log checked against the counted proximal steps",
 "P13": "runtime oracle: independent minimiser/KKT of sums and intersections",
 "P14": "metamorphic rotation monitor and singular-value oracle",
 "P15": "differential execution of engines; compiled code under numba bounds checking",
 "P16": "lock-step trace checking against a reference recursion",
 "P17": "lock-step trace checking against a reference recursion",
 "P18": "lock-step trace checking against a reference recursion, conservation monitors on step histories",
 "P19": "long-run monitor: distance to an independently computed optimum",
 "P20": "monotonicity monitors over recorded iterate traces",
 "P21": "event counting on callbacks, twin runs with and without output",
 "P22": "reference bilinear model, lock-step trace checking of the alternating solvers",
 "P23": "runtime oracle: simplex/label monitors, duality gap, metamorphic relabelling",
 "P24": "spy inner solvers, twin solver runs, optimality residual monitors",
 "P25": "fault injection into operators, verdict oracle on the checkers",
 "P26": "metamorphic phase monitor, real-as-complex and float32 twins",
 "P27": "NaN/Inf/shape/dtype sanitizer on every returned array, floating-point traps",
 "P28": "duality-gap certificate and metamorphic monitors on TV",
 "P29": "exception oracle on both sides of every documented rule",
 "P30": "process-state snapshots around every library call",
 "P31": "differential call monitor: option omitted, documented default given, all arguments by position",
}
NOTE = ("Held on the executions actually produced (seeded random and hostile workloads, counts in the evidence file); nothing is "
        "claimed about inputs not drawn. Trusts numpy/scipy/pylops and the independent reference formulas in harness/.")
checks, na = [], []
for pid in sorted(T):
    if os.path.exists(os.path.join(R, "harness", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"./check {pid}", thorough_cmd=f"./check {pid} --thorough",
                           evidence_file=f"evidence/{pid}.json", technique=T[pid], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Everything is observed through the public API from harness/; /repo needs no hooks."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
