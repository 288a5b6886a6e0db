"""Runner: generates cases, runs them in worker processes under monitors, gives verdicts.

A check is a module with PROP, TITLE_RULE and GROUPS = [(name, fn, quick, thorough)].
`fn(m)` runs one case: it draws everything from `m.rng` (seeded by VERIF_SEED, group
name and case index, so that every case can be replayed alone) and reports what the
monitors observed through `m`.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")
CASE_CPU = 90.0       # CPU seconds one case may take (normal cases take milliseconds)
MAX_FAILS = int(os.environ.get("VERIF_MAX_FAILS", "12"))        # stop after that many violating cases


class CaseBudget(BaseException):
    """A case used far more CPU time than it can legitimately need."""


class Monitor:
    """Handed to every case; collects what was observed and what was violated."""

    def __init__(self, prop, group, index, seed, tier):
        self.prop, self.group, self.index, self.seed, self.tier = prop, group, index, seed, tier
        import numpy as np
        self.rng = np.random.default_rng([seed & 0x7FFFFFFF, zlib.crc32(group.encode()), index])
        self.events = Counter()
        self.fails = []
        self.findings = []
        self.keys = set()
        self.sample = None
        self.quiet = False

    # -- observations -------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def nontrivial(self, *key):
        """Record that this case exercised something that could have been violated."""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def describe(self, /, **kw):
        if self.sample is None:
            self.sample = {}
        self.sample.update({k: short(v) for k, v in kw.items()})

    # -- oracles ------------------------------------------------------------------
    def fail(self, what, /, **details):
        self.fails.append((what, {k: short(v) for k, v in details.items()}))

    def ok(self, cond, what, /, **details):
        self.events["oracle:" + what] += 1
        if not bool(cond):
            self.fail(what, **details)
            return False
        return True

    def le(self, a, b, what, tol=0.0, /, **details):
        """a <= b up to tol; NaN violates."""
        return self.ok(float(a) <= float(b) + tol, what, lhs=a, rhs=b, tol=tol, **details)

    def close(self, a, b, what, tol, /, **details):
        """max |a-b| <= tol; shapes must agree; NaN violates."""
        import numpy as np
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return self.ok(False, what, got_shape=a.shape, want_shape=b.shape, **details)
        with np.errstate(all="ignore"):
            err = float(np.max(np.abs(a - b))) if a.size else 0.0
        return self.ok(err <= tol, what, err=err, tol=tol, got=a, want=b, **details)

    def known(self, key, cond, what, /, **details):
        """A listed finding: cond False means the defect showed again."""
        self.events["oracle:" + what] += 1
        if not bool(cond):
            self.findings.append((key, what, {k: short(v) for k, v in details.items()}))


def short(v, n=400):
    import numpy as np
    if isinstance(v, np.ndarray):
        with np.printoptions(threshold=24, edgeitems=6, precision=12, linewidth=10**6):
            s = f"{v.dtype}{list(v.shape)} {v!s}"
        s = s.replace("\n", "")
    elif isinstance(v, float):
        s = repr(v)
    elif isinstance(v, (int, bool, str)) or v is None:
        return v
    else:
        s = str(v)
    return s if len(s) <= n else s[: n - 3] + "..."


# ------------------------------------------------------------------------------------
def load(prop):
    return importlib.import_module("p" + prop[1:])


def run_case(mod, group, fn, index, seed, tier):
    m = Monitor(mod.PROP, group, index, seed, tier)

    def on_alarm(sig, frm):
        raise CaseBudget()

    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(m)
    except CaseBudget:
        m.fail("bounded progress: the case did not finish within its CPU budget",
               cpu_seconds=CASE_CPU, where="".join(traceback.format_exc().splitlines(True)[-12:]))
    except (MemoryError, OSError) as e:
        raise
    except Exception as e:
        # valid inputs only: an exception out of the code under test, or a result the
        # monitor cannot even evaluate, is an observed misbehaviour
        m.fail("no exception on valid input: " + type(e).__name__,
               error=str(e), trace="".join(traceback.format_exc().splitlines(True)[-14:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return m


def worker(mod, cases, fns, counter, current, wid, nw, conn, seed, tier, quietfd):
    os.dup2(quietfd, 1)
    os.dup2(quietfd, 2)
    sys.stdout = os.fdopen(1, "w", closefd=False)
    sys.stderr = os.fdopen(2, "w", closefd=False)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    agg = dict(events=Counter(), keys=set(), n=0, samples=[], groups=Counter(), findings={})
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(cases):
            break
        current[wid] = i
        g, idx = cases[i]
        try:
            m = run_case(mod, g, fns[g], idx, seed, tier)
        except BaseException as e:  # harness or machine problem
            conn.send(("error", g, idx, "".join(traceback.format_exc())))
            continue
        agg["events"].update(m.events)
        agg["keys"] |= m.keys
        agg["n"] += 1
        agg["groups"][g] += 1
        if m.sample and len(agg["samples"]) < 3:
            agg["samples"].append({**m.sample, "group": g, "case": idx})
        for key, what, det in m.findings:
            agg["findings"].setdefault(key, (what, det, g, idx))
        if m.fails:
            conn.send(("fail", g, idx, m.fails[:4], m.sample))
    current[wid] = -1
    conn.send(("done", agg))
    conn.close()
    os._exit(0)


def read_known():
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith("finding:"):
                parts = dict(p.split("=", 1) for p in line.split()[1:3])
                out[(parts["property"], parts["key"])] = line.split(None, 3)[3]
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    only = argv[argv.index("--group") + 1] if "--group" in argv else None
    t0 = time.time()
    sys.path.insert(0, HERE)
    import env
    env.prepare()
    mod = load(prop)
    if replay:
        return do_replay(mod, replay)

    fns = {g[0]: g[1] for g in mod.GROUPS}
    cases = []
    # the cheap properties look at more cases than their base count
    mult = getattr(mod, "QUICK_MULT", 2)
    lists = [[(g[0], i) for i in range(min(g[2] * (mult if g[2] >= 40 else 1), max(g[2], g[3])) if tier == "quick" else g[3])]
             for g in mod.GROUPS if only is None or g[0] == only]
    # interleave the groups so that every group is reached early
    k = 0
    while any(lists):
        for l in lists:
            step = max(1, len(l) // 64)
            cases.extend(l[:step])
            del l[:step]
    nw = int(os.environ.get("VERIF_PROCS", "8"))
    nw = max(1, min(nw, len(cases)))
    ctx = mp.get_context("fork")
    counter = ctx.Value("q", 0)
    current = ctx.Array("q", [-1] * nw)
    sys.stdout.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    procs, conns = [], []
    for w in range(nw):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(mod, cases, fns, counter, current, w, nw, b,
                                             seed, tier, null))
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    from multiprocessing.connection import wait
    open_conns = {c: i for i, c in enumerate(conns)}
    events, keys, n, samples, groups = Counter(), set(), 0, [], Counter()
    fails, errors, findings = [], [], {}
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "840"))
    finished = set()
    timed_out = False
    while open_conns:
        ready = wait(list(open_conns), timeout=1.0)
        for c in ready:
            w = open_conns[c]
            try:
                msg = c.recv()
            except EOFError:
                del open_conns[c]
                if w not in finished:
                    procs[w].join()
                    code = procs[w].exitcode
                    i = current[w]
                    g, idx = cases[i] if 0 <= i < len(cases) else ("?", -1)
                    if code is not None and code < 0 and code not in (-signal.SIGKILL, -signal.SIGTERM):
                        fails.append((g, idx, [("no crash: worker died with signal %d" % -code, {})], None))
                    else:
                        errors.append((g, idx, "worker ended with exit code %r" % code))
                continue
            if msg[0] == "fail":
                fails.append(msg[1:])
            elif msg[0] == "error":
                errors.append(msg[1:])
            else:
                agg = msg[1]
                finished.add(w)
                events.update(agg["events"])
                keys |= agg["keys"]
                n += agg["n"]
                groups.update(agg["groups"])
                samples.extend(agg["samples"])
                for kk, v in agg["findings"].items():
                    findings.setdefault(kk, v)
        if len(fails) >= MAX_FAILS:
            with counter.get_lock():
                counter.value = len(cases)
            if time.time() > deadline - 600 or len(fails) >= 4 * MAX_FAILS:
                break
        if time.time() > deadline:
            timed_out = True
            break
    for p in procs:
        if p.is_alive():
            p.join(0.2)
            if p.is_alive():
                p.kill()

    known = read_known()
    for key, (what, det, g, idx) in sorted(findings.items()):
        if (prop, key) in known:
            print(f"KNOWN-FINDING: property={prop} {known[(prop, key)]}")
        else:
            fails.append((g, idx, [(what + " [" + key + "]", det)], None))

    wall = time.time() - t0
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    oracles = {k[7:]: v for k, v in sorted(events.items()) if k.startswith("oracle:")}
    others = {k: v for k, v in sorted(events.items()) if not k.startswith("oracle:")}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=n, distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples[:6], cases_per_group=dict(groups),
                            oracle_evaluations=oracles, observed_events=others,
                            known_findings_reproduced=sorted(findings)),
              wall_s=round(wall, 3), violations=len(fails), harness_errors=len(errors))
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    if fails:
        seen = set()
        for g, idx, fl, sample in fails:
            what = fl[0][0]
            if (g, what) in seen or len(seen) >= 6:
                continue
            seen.add((g, what))
            path = os.path.join("evidence", "replays", f"{prop}-{len(seen)}.json")
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(dict(property=prop, group=g, case=idx, seed=seed, tier=tier,
                               violated=[dict(what=w, **d) for w, d in fl], case_description=sample),
                          f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {g}#{idx}: {what} " + " ".join(f"{k}={v}" for k, v in list(fl[0][1].items())[:6])[:1500])
        print(f"{prop}: {len(fails)} violating cases of {n} ({wall:.1f} s)")
        return 1
    if errors:
        print(f"INCONCLUSIVE property={prop}: harness error in {errors[0][0]}#{errors[0][1]}\n{errors[0][2]}")
        return 2
    if timed_out:
        print(f"INCONCLUSIVE property={prop}: not finished after {wall:.0f} s")
        return 2
    missing = [g for g in fns if (only is None or g == only) and groups[g] == 0]
    if n == 0 or not keys or sum(oracles.values()) == 0 or missing:
        print(f"INCONCLUSIVE property={prop}: the monitors observed nothing ({missing})")
        return 2
    print(f"HELD property={prop}: {n} cases, {len(keys)} distinct non-trivial, "
          f"{sum(oracles.values())} oracle evaluations, tier={tier} seed={seed} ({wall:.1f} s)")
    return 0


def do_replay(mod, path):
    if not os.path.isabs(path):
        path = os.path.join(VERIF, path)
    d = json.load(open(path))
    fns = {g[0]: g[1] for g in mod.GROUPS}
    m = run_case(mod, d["group"], fns[d["group"]], d["case"], d["seed"], d["tier"])
    print("case:", json.dumps(m.sample, default=str))
    for what, det in m.fails:
        print("VIOLATED:", what)
        for k, v in det.items():
            print("   ", k, "=", v)
    for f in m.findings:
        print("FINDING:", f)
    if m.fails:
        print(f"VIOLATION property={mod.PROP} replay={path}")
        return 1
    print("not reproduced")
    return 0
