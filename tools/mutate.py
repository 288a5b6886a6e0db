"""Mutation survey: which small changes of the library do the checks miss?

  mutate.py OUT.jsonl N SEED [file-prefix ...]

Draws N source mutants (outside docstrings, messages and printing), keeps those the
stable tests do not notice, runs the checks of the properties the file concerns
and records for each survivor the check that caught it, or none.
Everything happens in scratch copies.
"""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ROOT = "/repo/pyproximal/"
TAIL = ["P10", "P27", "P26", "P21", "P29", "P30"]
MAP = [
    ("ProxOperator", "P08 P05 P09 P07 P11"), ("proximal/TV", "P28 P12 P04 P10"), ("proximal/Sum", "P13 P08 P12 P11"), ("proximal/_Dykstra", "P13 P03 P01 P20"), ("proximal/VStack", "P08 P04 P11"),
    ("proximal/Simplex", "P15 P03 P01 P04"), ("proximal/_Simplex", "P15 P03"), ("proximal/Nuclear", "P14 P01 P02 P03 P04"), ("proximal/SingularValuePenalty", "P14 P02 P04"),
    ("proximal/L2", "P01 P05 P07 P11 P12 P04 P06"), ("proximal/Quadratic.py", "P01 P07 P05 P04"), ("proximal/QuadraticEnvelope", "P02 P04 P14 P12"), ("proximal/Orthogonal", "P08 P01 P04"),
    ("proximal/Nonlinear", "P01 P11 P07 P08"), ("proximal/GenericIntersection", "P13 P03 P04"), ("proximal/Intersection", "P13 P03 P04 P11"),
    ("proximal/ETP", "P02 P04"), ("proximal/Geman", "P02 P04"), ("proximal/Log", "P02 P04"), ("proximal/SCAD", "P02 P04"), ("proximal/L0", "P02 P03 P04 P12"), ("proximal/RelaxedMS", "P02 P04 P12"),
    ("proximal/", "P01 P05 P04 P07 P06 P12"), ("projection/", "P03 P01 P13 P04 P11"),
    ("optimization/primaldual", "P18 P19 P20 P21"), ("optimization/palm", "P22 P20 P21"), ("optimization/segmentation", "P23 P21"), ("optimization/bregman", "P24"), ("optimization/pnp", "P24"), ("optimization/sr3", "P24 P20"),
    ("optimization/primal", "P16 P17 P20 P21 P19"), ("optimization/", "P24 P16 P17"), ("utils/bilinear", "P22 P07"), ("utils/", "P25 P22"),
]


def props(rel):
    for k, v in MAP:
        if rel.startswith(k):
            return v.split() + [p for p in TAIL if p not in v]
    return TAIL


def docs(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            out.add(n.body[0].value)
    return out


def sites(path):
    """(start, end, replacement, kind) in characters."""
    src = open(path, newline="").read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    blines = [l.encode() for l in lines]

    def pos(line, col):
        return off[line - 1] + len(blines[line - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def txt(n):
        a, b = span(n)
        return src[a:b]
    dead = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and ("show" in txt(n.test) or "verb" in txt(n.test)):
            for q in n.body:
                dead |= set(ast.walk(q))
            dead |= set(ast.walk(n.test))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("msg", "head", "strpar", "message", "__all__", "tstart"):
            dead |= set(ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation is not None:
                    dead |= set(ast.walk(a.annotation))
            if n.returns is not None:
                dead |= set(ast.walk(n.returns))
            for d in n.decorator_list:
                dead |= set(ast.walk(d))
        if isinstance(n, (ast.JoinedStr, ast.Raise, ast.Import, ast.ImportFrom)):
            dead |= set(ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            dead |= set(ast.walk(n.annotation))
        if isinstance(n, ast.Call) and txt(n.func) in ("print", "logger.warning"):
            dead |= set(ast.walk(n))
    dd = docs(tree)
    out = []

    def add(n, new, kind):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, kind, n.lineno))
    swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.MatMult: None, ast.Pow: "*", ast.FloorDiv: None}
    for n in ast.walk(tree):
        if n in dead or n in dd:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in swap:
            l, r = txt(n.left), txt(n.right)
            if swap[type(n.op)]:
                add(n, f"({l} {swap[type(n.op)]} ({r}))", "binop")
            add(n, f"({l})", "left")
            if not isinstance(n.op, (ast.Pow, ast.Div)):
                add(n, f"({r})", "right")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, f"({txt(n.operand)})", "unary")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
            k = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<="}
            o = type(n.ops[0])
            for t in (m, k):
                if o in t:
                    add(n, f"{txt(n.left)} {t[o]} {txt(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BoolOp):
            add(n, (" or " if isinstance(n.op, ast.And) else " and ").join(f"({txt(v)})" for v in n.values), "boolop")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            for v in ({0: [1], 1: [2, 0], 2: [1, 3], -1: [0]}.get(n.value, [n.value * 2]) if not isinstance(n.value, float) else ([n.value * 2] if n.value else [1.0])):
                add(n, repr(float(v)) if isinstance(n.value, float) else repr(v), "const")
        elif isinstance(n, ast.Call):
            f = txt(n.func)
            last = f.split(".")[-1]
            if last in ("conj", "abs", "real", "conjugate", "sqrt") and len(n.args) == 1:
                add(n, f"({txt(n.args[0])})", "drop-" + last)
            elif last in ("copy", "conj", "ravel") and not n.args:
                add(n, f[: -len(last) - 1], "drop-" + last)
            elif last in ("maximum", "minimum", "max", "min") and n.args:
                o = {"maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max"}[last]
                add(n.func, f[: -len(last)] + o, "minmax")
            elif len(n.args) == 2 and not n.keywords and last not in ("isinstance", "hasattr", "getattr", "super"):
                add(n, f"{f}({txt(n.args[1])}, {txt(n.args[0])})", "swapargs")
            for kw in n.keywords:
                if kw.arg and len(n.keywords) > 0 and kw.value not in dead:
                    pass
        elif isinstance(n, ast.Attribute) and n.attr in ("H", "T") and isinstance(n.ctx, ast.Load):
            add(n, f"({txt(n.value)})", "drop-" + n.attr)
        elif isinstance(n, ast.IfExp):
            add(n, f"({txt(n.body)})", "ifexp")
            add(n, f"({txt(n.orelse)})", "ifexp")
        elif isinstance(n, ast.If):
            add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        elif isinstance(n, ast.AugAssign):
            m = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}
            if type(n.op) in m:
                add(n, f"{txt(n.target)} {m[type(n.op)]} {txt(n.value)}", "augassign")
            add(n, f"{txt(n.target)} = {txt(n.value)}", "augassign")
            add(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1:
            t = n.targets[0]
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                add(n, "pass", "delete")
            elif isinstance(t, ast.Name) and any(isinstance(q, ast.Name) and q.id == t.id for q in ast.walk(n.value)):
                add(n, "pass", "delete")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "delete")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "delete")
    return src, out


def sh(cmd, cwd, timeout=None, **env):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **env), timeout=timeout)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout = 99, "timeout"
        return R


def one(args):
    rel, src, s, checks = args
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        sh(f"cp -a /repo {d}/repo", "/")
        t = d + "/repo"
        p = f"{t}/pyproximal/{rel}"
        new = src[:s[0]] + s[2] + src[s[1]:]
        try:
            ast.parse(new)
        except SyntaxError:
            return None
        open(p, "w", newline="").write(new)
        ln = src[:s[0]].count("\n")
        res = dict(file=rel, line=ln + 1, kind=s[3], old=src[s[0]:s[1]], new=s[2], text=src.splitlines()[ln].strip())
        r = sh("ulimit -v 12000000; . /opt/vp/env.sh; PYTHONPATH=$PWD timeout 150 python -m pytest -q -x -p no:cacheprovider pytests --deselect none 2>&1 | tail -3", t, timeout=200)
        if "failed" in r.stdout or "error" in r.stdout.lower() or "passed" not in r.stdout:
            res["caught"] = "tests"
            return res
        res["caught"] = None
        for c in checks:
            r = sh(f"./check {c}", "/verif", timeout=400, VERIF_REPO=t, VERIF_EVIDENCE=d, VERIF_MAX_FAILS="1")
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                res["caught"] = c
                break
            if r.returncode not in (0, 1):
                res["caught"] = c + "?"
                break
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pre = sys.argv[4:]
    rng = random.Random(seed)
    jobs = []
    for p in sorted(glob.glob(ROOT + "**/*.py", recursive=True)):
        rel = p[len(ROOT):]
        if "cuda" in rel or rel.endswith("__init__.py") or "version" in rel or "backend" in rel or (pre and not any(rel.startswith(q) for q in pre)):
            continue
        src, ss = sites(p)
        jobs += [(rel, src, s, props(rel)) for s in ss]
    print(len(jobs), "sites", flush=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["old"], r["new"]))
    rng.shuffle(jobs)
    jobs = [j for j in jobs if (j[0], j[1][:j[2][0]].count("\n") + 1, j[1][j[2][0]:j[2][1]], j[2][2]) not in done][:N]
    with ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "4"))) as ex:
        for r in ex.map(one, jobs):
            if r:
                with open(out, "a") as f:
                    f.write(json.dumps(r) + "\n")
                if r["caught"] != "tests":
                    print(r["caught"], r["file"], r["line"], r["kind"], "|", r["old"][:70].replace("\n", " "), "->", r["new"][:70].replace("\n", " "), flush=True)


main()
