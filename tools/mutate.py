"""
Small syntactic mutants of /repo's sources, to look for gaps in the checks.

    python tools/mutate.py FILE PROPS OUT [--only A-B] [--par N]

Every mutant is made in a scratch copy under /tmp; those that still pass the
repository's tests are given to the checks of PROPS (comma separated, in that
order) until one reports a violation. OUT gets one line per mutant: what was
changed, and who noticed it. Survivors are to be read by a person: many are
equivalent. This is no check; it only serves to improve them.
"""
import ast
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

PY = "/opt/venv/bin/python"
REPO = "/repo"
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
        ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*",
       ast.FloorDiv: "*", ast.Mod: "//", ast.BitOr: "&", ast.BitAnd: "|"}


def mutants(source):
    tree = ast.parse(source)
    lines = source.split("\n")
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = source.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return (pos(n.lineno, n.col_offset),
                pos(n.end_lineno, n.end_col_offset))

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                skip.add(n.body[0])
                skip.add(n.body[0].value)
        for field in ("annotation", "returns"):
            ann = getattr(n, field, None)
            if ann is not None:
                skip.update(ast.walk(ann))
    out = []

    def add(n, new, why):
        a, b = span(n)
        out.append((a, b, new, why, n.lineno))

    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = SWAP[type(n.ops[0])]
            add(n, f"{text(n.left)} {op} {text(n.comparators[0])}", "cmp")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                op = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[op]
                add(n, f"{text(n.left)} {op} {text(n.comparators[0])}", "cmp2")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(text(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                mid = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + mid.join(rest) + ")", f"drop operand {i}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, f"({text(n.operand)})", "minus")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})",
                "bin")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, repr(not v), "const")
            elif v is None:
                pass
            elif isinstance(v, (int, float)):
                add(n, repr(v + 1), "const+1")
                if v:
                    add(n, repr(v - 1), "const-1")
            elif isinstance(v, (str, bytes)) and text(n)[:1] in "'\"b":
                add(n, repr(v + (b"X" if isinstance(v, bytes) else "X")),
                    "str")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, "True", "if True")
            add(n.test, "False", "if False")
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                add(t, "True", "comp if True")
        elif isinstance(n, ast.Return):
            if n.value is not None and not (
                    isinstance(n.value, ast.Constant)
                    and n.value.value is None):
                add(n, "return None", "return None")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                            ast.Delete)):
            if not (isinstance(n, ast.Expr) and isinstance(
                    n.value, (ast.Yield, ast.YieldFrom))):
                add(n, "pass", "drop statement")
        elif isinstance(n, ast.Break):
            add(n, "continue", "break")
        elif isinstance(n, ast.Continue):
            add(n, "break", "continue")
        if isinstance(n, ast.Call):
            args = list(n.args)
            if len(args) == 2 and not any(
                    isinstance(a, ast.Starred) for a in args):
                a, b = span(args[0])
                c, d = span(args[1])
                out.append((a, d, f"{text(args[1])}, {text(args[0])}",
                            "swap args", n.lineno))
            for k in n.keywords:
                if k.arg is None:
                    a, b = span(k.value)
                    out.append((a, b, "{}", "drop **", n.lineno))
                    continue
                rest = [text(a) for a in args] + [
                    ("**" if j.arg is None else j.arg + "=") + text(j.value)
                    for j in n.keywords if j is not k]
                add(n, f"{text(n.func)}({', '.join(rest)})",
                    f"drop {k.arg}=")
            if len(args) == 1 and not n.keywords and not isinstance(
                    args[0], ast.Starred) and isinstance(n.func, ast.Name) \
                    and n.func.id in (
                        "list", "tuple", "dict", "set", "sorted", "copy",
                        "deepcopy", "str", "int", "reversed", "iter", "abs",
                        "bool", "bytes"):
                add(n, f"({text(args[0])})", f"no {n.func.id}()")
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "lower", "upper", "strip", "flatten", "values",
                    "items", "keys", "astype", "sort_values", "reset_index",
                    "decode", "encode"):
                add(n, f"({text(n.func.value)})", f"no .{n.func.attr}()")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    rest = [text(e) for j, e in enumerate(n.type.elts)
                            if j != i]
                    add(n.type, "(" + ", ".join(rest) + ",)", f"except -{i}")
            else:
                add(n.type, "ZeroDivisionError", "except nothing")
                if text(n.type) not in ("Exception", "BaseException"):
                    add(n.type, "Exception", "except all")
        if isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    add(part, "None", "slice")
    seen = set()
    for a, b, new, why, line in sorted(out):
        done = raw[:a] + new.encode() + raw[b:]
        if done in seen or done == raw:
            continue
        seen.add(done)
        try:
            if ast.dump(ast.parse(done)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        yield line, why, raw[a:b].decode(), new, done.decode()


LOCK = threading.Lock()


def one(n, file, props, mutant, out, jobs):
    line, why, old, new, text = mutant
    wd = f"/tmp/mut/{os.path.basename(file)}-{n}-{os.getpid()}"
    shutil.rmtree(wd, ignore_errors=True)
    shutil.copytree(REPO, wd, ignore=shutil.ignore_patterns(
        ".git", "__pycache__", "*.ipynb", "examples", "docs"))
    try:
        with open(f"{wd}/dustgoggles/{file}", "w") as stream:
            stream.write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", DG_REPO=wd,
                   VERIF_SEED="1", VERIF_TIER="quick",
                   MC_OUT=f"{wd}/out", MC_JOBS=str(jobs), MC_FIRST="1")
        res = None
        try:
            p = subprocess.run(
                [PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider",
                 "--timeout=60", "dustgoggles"], cwd=wd, env=env,
                capture_output=True, timeout=200)
            if p.returncode:
                res = "tests"
        except subprocess.TimeoutExpired:
            res = "tests (time)"
        odd = []
        if res is None:
            for prop in props:
                try:
                    p = subprocess.run(
                        [PY, "-B", "-m", "mc.run", prop], cwd="/verif",
                        env=env, capture_output=True, text=True,
                        timeout=1500)
                except subprocess.TimeoutExpired:
                    odd.append(f"{prop}:time")
                    continue
                if p.returncode == 1 and "VIOLATION" in p.stdout:
                    res = prop
                    break
                if p.returncode:
                    odd.append(f"{prop}:exit {p.returncode} "
                               + p.stderr.strip().split("\n")[-1][:100])
        with LOCK, open(out, "a") as stream:
            stream.write(f"{n:4d} {res or 'SURVIVED'} line {line} [{why}] "
                         f"{old!r} -> {new!r} {odd or ''}\n")
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    file, props, out = sys.argv[1:4]
    opts = dict(zip(sys.argv[4::2], sys.argv[5::2]))
    with open(f"{REPO}/dustgoggles/{file}") as stream:
        todo = list(enumerate(mutants(stream.read())))
    if "--only" in opts:
        a, b = map(int, opts["--only"].split("-"))
        todo = todo[a:b]
    if "--lines" in opts:
        a, b = map(int, opts["--lines"].split("-"))
        todo = [t for t in todo if a <= t[1][0] <= b]
    if "--count" in opts:
        print(len(todo))
        return
    done = set()
    if os.path.exists(out):
        done = {int(line[:4]) for line in open(out)}
    os.makedirs("/tmp/mut", exist_ok=True)
    with ThreadPoolExecutor(int(opts.get("--par", 7))) as pool:
        list(pool.map(
            lambda t: one(t[0], file, props.split(","), t[1], out,
                          opts.get("--jobs", 1)),
            [t for t in todo if t[0] not in done]))


if __name__ == "__main__":
    main()
