"""Mutation survey (a development aid, not a check).

python3 tools/mutate.py gen OUT.json                 all one-place mutants of /repo/cfdtools
python3 tools/mutate.py tests OUT.json N JOBS SEED   run the stable tests on N of them, keep the survivors
python3 tools/mutate.py checks OUT.json [N]          run the checks of the module on the survivors until one alarms
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
R = Path("/repo")
CHECKS = {
    "meshbase/_connectivity": "C05 C04 C01 C03 C02 C09 C15 C10",
    "meshbase/_mesh": "C02 C03 C06 C07 C15 C09 C14 C28 C33 C36",
    "meshbase/simple": "C08 C40 C07",
    "meshbase/_elements": "C01 C06 C20 C16 C18",
    "cfdtools/data": "C36 C22 C25 C11",
    "cfdtools/api": "C27 C31 C29 C34 C33 C40 C28",
    "cfdtools/_cli": "C29 C27 C28 C33 C39 C40 C41",
    "vtk/_vtkList": "C21 C22",
    "vtk/_vtk": "C20 C23 C21 C15 C22",
    "hdf5": "C32 C20 C22",
    "cgns": "C18 C38 C19",
    "gmsh": "C16 C38 C19",
    "ic3/writerV4": "C14 C37 C15",
    "ic3/readerV4": "C14 C13",
    "ic3/writerV2": "C09 C11 C14 C37 C15",
    "ic3/writerV3": "C09 C11 C14",
    "ic3/": "C10 C11 C13 C12 C33 C14 C09",
    "probes/data": "C30 C35 C25",
    "physics": "C30",
    "probes/plot": "C35",
    "plot": "C35",
    "polybase": "C26",
    "maths": "C31 C33",
    "_dev": "C20 C26 C34",
    "": "C34 C29",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+", ast.Pow: "*"}


def gen():
    out = []
    for f in sorted((R / "cfdtools").rglob("*.py")):
        src = f.read_text()
        lines = src.splitlines(keepends=True)
        start = [0]
        for x in lines:
            start.append(start[-1] + len(x))

        def off(line, col):
            return start[line - 1] + len(lines[line - 1].encode()[:col].decode())

        def span(n):
            return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

        def add(a, b, new, kind, line):
            out.append({"file": str(f.relative_to(R)), "a": a, "b": b, "old": src[a:b], "new": new, "kind": kind, "line": line})

        skip = set()
        tree = ast.parse(src)
        for n in ast.walk(tree):  # messages and conditions of messages
            if isinstance(n, ast.Call):
                t = ast.unparse(n.func)
                if t.startswith(("log.", "api.io.", "warnings.")) or t in ("print", "_printreadable", "api._printreadable", "print_stats_scalar"):
                    skip |= {id(x) for x in ast.walk(n)}
            if isinstance(n, (ast.JoinedStr, ast.Raise)):
                skip |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.Assert) and n.msg is not None:
                skip |= {id(x) for x in ast.walk(n.msg)}
        for n in ast.walk(tree):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = span(n.left)[1], span(n.comparators[0])[0]
                add(a, b, f" {SWAP[type(n.ops[0])]} ", "cmp", n.lineno)
            elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
                a, b = span(n.left)[1], span(n.right)[0]
                seg = src[a:b]
                if "(" not in seg and ")" not in seg:
                    add(a, b, f" {OPS[type(n.op)]} ", "op", n.lineno)
            elif isinstance(n, ast.BoolOp):
                a, b = span(n.values[0])[1], span(n.values[1])[0]
                if "(" not in src[a:b] and ")" not in src[a:b]:
                    add(a, b, " or " if isinstance(n.op, ast.And) else " and ", "bool", n.lineno)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                a, b = span(n)
                add(a, b, f"({ast.unparse(n.operand)})", "unary", n.lineno)
            elif isinstance(n, ast.Constant) and type(n.value) in (int, bool):
                a, b = span(n)
                add(a, b, repr(not n.value) if isinstance(n.value, bool) else repr(n.value + 1), "const", n.lineno)
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                a, b = span(n.test)
                add(a, b, f"(not ({src[a:b]}))" if not isinstance(n, ast.While) else "False", "cond", n.lineno)
            elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Assign)) and not isinstance(getattr(n, "value", None), ast.Constant):
                if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call):
                    continue
                if isinstance(n, ast.Expr) and id(n.value) in skip:
                    continue
                if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                    continue
                a, b = span(n)
                add(a, b, "pass", "del", n.lineno)
            elif isinstance(n, (ast.Break, ast.Continue)):
                a, b = span(n)
                add(a, b, "pass", "del", n.lineno)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "ravel", "unique", "sort", "sorted") and not n.keywords:
                a, b = span(n)
                if n.func.attr in ("copy",) and isinstance(n.func.value, ast.Name | ast.Attribute | ast.Subscript):
                    add(a, b, ast.unparse(n.func.value), "nocopy", n.lineno)
    return out


def tree_of(m, name):
    t = f"/tmp/mut/{name}"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree("/repo", t, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
    p = Path(t, m["file"])
    s = p.read_text()
    p.write_text(s[: m["a"]] + m["new"] + s[m["b"] :])
    return t


def tests(m, i):
    t = tree_of(m, f"t{i}")
    try:
        try:
            ast.parse(Path(t, m["file"]).read_text())
        except SyntaxError:
            return "syntax"
        env = dict(os.environ, PYTHONPATH=t, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
        try:
            r = subprocess.run("/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --no-cov --timeout=60 2>&1 | tail -3", shell=True, cwd=t, env=env, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return "killed"
        return "survived" if "86 passed" in r.stdout and "failed" not in r.stdout else "killed"
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    cmd, path = sys.argv[1], Path(sys.argv[2])
    Path("/tmp/mut").mkdir(exist_ok=True)
    if cmd == "gen":
        ms = gen()
        path.write_text(json.dumps(ms, indent=0))
        print(len(ms))
        return
    ms = json.loads(path.read_text())
    if cmd == "tests":
        n, jobs, seed = map(int, sys.argv[3:6])
        todo = [i for i, m in enumerate(ms) if "tests" not in m]
        random.Random(seed).shuffle(todo)

        def go(i):
            ms[i]["tests"] = tests(ms[i], i)

        done = 0
        with ThreadPoolExecutor(jobs) as ex:
            for _ in ex.map(go, todo[:n]):
                done += 1
                if done % 20 == 0:
                    path.write_text(json.dumps(ms, indent=0))
                    print(done, sum(m.get("tests") == "survived" for m in ms), flush=True)
        path.write_text(json.dumps(ms, indent=0))
    else:
        n = int(sys.argv[3]) if len(sys.argv) > 3 else 10**6
        res_p = path.with_suffix(".res")
        res = json.loads(res_p.read_text()) if res_p.exists() else {}
        order = list(range(len(ms)))
        random.Random(7).shuffle(order)
        for i in order:
            m = ms[i]
            if m.get("tests") != "survived" or str(i) in res or n <= 0:
                continue
            n -= 1
            t = tree_of(m, f"c{i}")
            try:
                ids = next(v for k, v in CHECKS.items() if k in m["file"]).split()
                hit = None
                for c in ids:
                    try:
                        r = subprocess.run(["./check", c, "--tier", "quick"], cwd=V, env=dict(os.environ, MC_REPO=t), capture_output=True, text=True, timeout=900)
                    except subprocess.TimeoutExpired:
                        hit = c + ":timeout"
                        continue
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        hit = c
                        break
                    if r.returncode:
                        hit = f"{c}:rc{r.returncode}"
                res[str(i)] = hit
            finally:
                shutil.rmtree(t, ignore_errors=True)
            print(i, m["file"], m["line"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:40]), "::", hit, flush=True)
            res_p.write_text(json.dumps(res))


main()
