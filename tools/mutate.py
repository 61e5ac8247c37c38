"""Automatic mutation of the package's source: which small changes do the quick checks not notice?

tools/mutate.py list [file]            number and describe the mutants
tools/mutate.py run FILE.log [file..]  run them (W parallel, STEP take every n-th, FROM first), one line each:
                                       number, file:line, operator, change, then the check that noticed or SURVIVED
Mutants are made in scratch copies; the checks run there by LEGWORK_REPO.
"""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/legwork"
CHECKS = {
    "utils": "C01 C02 C04 C03 C23 C11".split(),
    "strain": "C03 C04 C11 C13 C02 C25".split(),
    "psd": "C05 C06 C14 C13 C15 C20".split(),
    "evol": "C07 C08 C09 C10 C13 C14 C15 C17".split(),
    "snr": "C11 C12 C13 C16 C10 C17".split(),
    "source": "C25 C16 C18 C19 C20 C21 C22 C23 C17 C24 C03 C14".split(),
    "visualisation": "C24 C15".split(),
}
SWAP = {"logical_and": "logical_or", "logical_or": "logical_and", "maximum": "minimum", "minimum": "maximum", "any": "all", "all": "any",
        "sin": "cos", "cos": "sin", "zeros": "ones", "ones": "zeros", "argmax": "argmin", "ndim": "size", "where": None, "atleast_1d": "asarray",
        "transpose": "asarray", "zeros_like": "ones_like", "sqrt": "abs", "flatten": "copy", "append": None, "logspace": "linspace"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}


def mutants(path):
    """(line, operator, old, new, mutated text)."""
    text = open(path).read()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(node, op, new, a=None, b=None):
        if a is None:
            a, b = span(node)
        old = raw[a:b].decode()
        if old == new:
            return
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            return
        out.append((node.lineno, op, old, new, m))
    tree = ast.parse(text)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(x for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, "cmp", "{} {} {}".format(seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "u" for x in ast.walk(n.right)) \
                    or type(n.op) in (ast.Add, ast.Sub):
                if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    a, b = starts[n.left.end_lineno - 1] + n.left.end_col_offset, starts[n.right.lineno - 1] + n.right.col_offset
                    mid = raw[a:b].decode()
                    sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}[type(n.op)]
                    put(n, "arith", mid.replace(sym, BIN[type(n.op)], 1), a, b)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
            v = n.value
            if isinstance(v, bool):
                put(n, "bool", str(not v))
            elif isinstance(v, int):
                put(n, "int", str(v + 1))
            elif isinstance(v, float):
                put(n, "float", repr(v * 1.03 if v else 1e-3))
        elif isinstance(n, ast.Attribute) and SWAP.get(n.attr) and isinstance(n.value, ast.Name) and n.value.id == "np":
            put(n, "func", "np." + SWAP[n.attr])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, "unary", seg(n.operand))
        elif isinstance(n, ast.BoolOp):
            sym, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            a, b = starts[n.values[0].end_lineno - 1] + n.values[0].end_col_offset, starts[n.values[1].lineno - 1] + n.values[1].col_offset
            put(n, "boolop", raw[a:b].decode().replace(sym, new, 1), a, b)
        if isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "negate", "(not ({}))".format(seg(n.test)))
        if isinstance(n, ast.Call) and len(n.keywords):
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    # with the comma before or after
                    while raw[a - 1:a] in (b" ", b"\n"):
                        a -= 1
                    if raw[a - 1:a] == b",":
                        a -= 1
                    else:
                        while raw[b:b + 1] in (b" ", b"\n", b","):
                            b += 1
                    put(n, "drop " + k.arg, "", a, b)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            put(n, "no copy", seg(n.func.value))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, (ast.Name, ast.BinOp)):
            put(n, "no index", seg(n.value))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and n not in skip and not (
                isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("__all__",)):
            put(n, "drop statement", "pass")
    seen, res = set(), []
    for m in sorted(out, key=lambda m: (m[0], m[1])):
        if m[4] not in seen:
            seen.add(m[4])
            res.append(m)
    return res


def judge(job):
    num, name, m = job
    top = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(top, "repo")
        os.makedirs(repo)
        subprocess.run(["cp", "-a", "/repo/src", "/repo/docs", repo], check=True)
        with open(os.path.join(repo, "src/legwork", name + ".py"), "w") as f:
            f.write(m[4])
        ev = os.path.join(top, "ev")
        os.makedirs(ev)
        env = dict(os.environ, LEGWORK_REPO=repo, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick", VERIF_EVIDENCE=ev)
        verdict = "SURVIVED"
        for c in CHECKS[name]:
            try:
                r = subprocess.run(["/opt/venv/bin/python", "check.py", c, "--jobs", "2"], cwd=VERIF, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                verdict = c + " timeout"
                break
            if r.returncode:
                verdict = c + (" exit {}".format(r.returncode) if r.returncode != 1 else "")
                break
        return "{} {}:{} [{}] {!r} -> {!r} : {}".format(num, name, m[0], m[1], m[2][:70], m[3][:70], verdict)
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    what, args = sys.argv[1], sys.argv[2:]
    names = args[1:] if what == "run" else args
    todo = []
    for name in names or sorted(CHECKS):
        for k, m in enumerate(mutants(os.path.join(SRC, name + ".py"))):
            todo.append((k, name, m))
    if what == "list":
        for k, name, m in todo:
            print(k, "{}:{} [{}] {!r} -> {!r}".format(name, m[0], m[1], m[2][:80], m[3][:80]))
    else:
        todo = todo[int(os.environ.get("FROM", "0"))::int(os.environ.get("STEP", "1"))]
        with open(args[0], "a") as log, ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
            for line in ex.map(judge, todo):
                print(line, file=log, flush=True)
