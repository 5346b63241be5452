"""Measure the checks with small random changes to a file of the code.

usage: python3 tools/mutate.py FILE COUNT SEED CHECK[,CHECK...] [FUNC_REGEX]

Each change must pass the repository's tests (those that pass without it);
then the checks run, in scratch clones, until one reports it. Survivors are
printed as diffs; many of them change nothing that matters.
"""
import ast
import difflib
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

ROOT = Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("WORKERS", 8))


def spans(src):
    starts = [0]
    for line in src.encode().splitlines(True):
        starts.append(starts[-1] + len(line))
    return lambda n: (starts[n.lineno - 1] + n.col_offset,
                      starts[n.end_lineno - 1] + n.end_col_offset)


SWAP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"],
        ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
        ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"],
        ast.IsNot: ["is"]}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*",
       ast.FloorDiv: "*", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&",
       ast.LShift: ">>", ast.RShift: "<<", ast.Pow: "*"}


def mutants(src, only):
    """[(start, end, replacement)]"""
    tree, at = ast.parse(src), None
    pos = spans(src)
    raw = src.encode()
    text = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def visit(node, inside):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            inside = inside or not only or re.search(only, node.name)
        if isinstance(node, (ast.AnnAssign, ast.arguments)):
            return
        if isinstance(node, ast.FunctionDef):
            kids = node.body
            if (isinstance(kids[0], ast.Expr)
                    and isinstance(kids[0].value, ast.Constant)):
                kids = kids[1:]
        else:
            kids = list(ast.iter_child_nodes(node))
        if inside or not only:
            collect(node)
        for k in kids:
            visit(k, inside)

    def collect(n):
        s, e = pos(n) if hasattr(n, "lineno") else (0, 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in SWAP[type(n.ops[0])]:
                out.append((s, e, f"({text(n.left)} {op} "
                                  f"{text(n.comparators[0])})"))
        elif isinstance(n, ast.BoolOp):
            word = " and " if isinstance(n.op, ast.And) else " or "
            vals = [f"({text(v)})" for v in n.values]
            for i in range(len(vals)):
                out.append((s, e, "(" + word.join(
                    vals[:i] + vals[i + 1:]) + ")"))
            out.append((s, e, "(" + (" or " if word == " and " else " and "
                                     ).join(vals) + ")"))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                out.append((s, e, str(not n.value)))
            elif isinstance(n.value, int):
                out.append((s, e, str(n.value + 1)))
                out.append((s, e, f"({n.value - 1})"))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            if not isinstance(n.left, (ast.JoinedStr,)):
                out.append((s, e, f"({text(n.left)} {OPS[type(n.op)]} "
                                  f"{text(n.right)})"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((s, e, text(n.operand)))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = pos(n.test)
            out.append((a, b, "False"))
            if not isinstance(n, ast.While):
                out.append((a, b, "True"))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                            ast.Continue, ast.Break)):
            if not (isinstance(n, ast.Expr) and "warn" in text(n)):
                out.append((s, e, "pass"))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append((s, e, "return None"))
        elif isinstance(n, ast.Call) and n.keywords and n.keywords[-1].arg:
            k = n.keywords[-1]
            if len(n.args) + len(n.keywords) > 1:
                prev = (n.args + [x.value for x in n.keywords[:-1]])[-1]
                prev_end = max(pos(x)[1] for x in n.args + [
                    y.value for y in n.keywords[:-1]])
                out.append((prev_end, pos(k)[1], ""))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in (n.slice.lower, n.slice.upper):
                if part is not None:
                    a, b = pos(part)
                    out.append((a, b, f"({text(part)})+1"))
    visit(tree, False)
    good = []
    for a, b, new in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        if m == src:
            continue
        try:
            compile(m, "x", "exec")
        except SyntaxError:
            continue
        good.append(m)
    return good


def main():
    file, count, seed, checks = sys.argv[1:5]
    only = sys.argv[5] if len(sys.argv) > 5 else None
    src = Path("/repo", file).read_text()
    every = mutants(src, only)
    random.Random(int(seed)).shuffle(every)
    chosen = every[:int(count)]
    base = Path(tempfile.mkdtemp(prefix="mutate"))
    free = Queue()
    for i in range(WORKERS):
        w = base / f"w{i}"
        subprocess.run(["git", "clone", "-q", "/repo", str(w / "repo")],
                       check=True)
        free.put(w)
    env0 = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                PATH="/opt/venv/bin:" + os.environ["PATH"])
    totals = {"tests": 0, "survived": 0}

    def trial(new):
        w = free.get()
        try:
            (w / "repo" / file).write_text(new)
            try:
                r = subprocess.run(
                    ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                     "no:cacheprovider", f"--basetemp={w}/t", "pdr/tests",
                     "--deselect",
                     "pdr/tests/test_primary_desktop_image.py::test_anigif"],
                    cwd=w / "repo", env=env0, capture_output=True, text=True,
                    timeout=120)
            except subprocess.TimeoutExpired:
                return "tests", None
            if r.returncode:
                return "tests", None
            env = dict(env0, VP_REPO=str(w / "repo"), VP_SHARDS="1",
                       VP_EVIDENCE=str(w / "ev"), VP_REPLAYS=str(w / "rp"))
            for c in checks.split(","):
                try:
                    r = subprocess.run(
                        ["bash", "run.sh", "check", c], cwd=ROOT, env=env,
                        capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    return c + "(timeout)", None
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    return c, None
                if r.returncode:
                    return c + "(error)", r.stdout[-300:] + r.stderr[-300:]
            return "survived", "".join(difflib.unified_diff(
                src.splitlines(True), new.splitlines(True), n=2))
        finally:
            subprocess.run(["git", "-C", str(w / "repo"), "checkout", "-q",
                            "--", "."])
            free.put(w)

    try:
        with ThreadPoolExecutor(WORKERS) as pool:
            for what, more in pool.map(trial, chosen):
                totals[what] = totals.get(what, 0) + 1
                if more:
                    print(f"=== {what}\n{more}", flush=True)
    finally:
        shutil.rmtree(base)
    print(len(every), "possible,", len(chosen), "tried:", totals)


main()
