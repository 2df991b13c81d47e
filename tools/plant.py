"""python3 tools/plant.py SPEC.py [ID...]: build /verif/seeded/<id> from a bug specification and validate it in scratch copies.

SPEC.py defines BUGS = {id: dict(prop=, edits=[(file, old, new)], needs=, breaks=, demo=python source)}.
For each bug: patch, 86 stable tests on the patched copy, demo on both trees, then the check of the property."""
import json
import os
import runpy
import shutil
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
DEMO = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cd "$t"
MPLCONFIGDIR="$t" /opt/venv/bin/python "$d/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests(tree):
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 2>&1 | tail -15", cwd=tree, env=env)
    return r.stdout.strip().splitlines()


def one(bid, b, check=True):
    tree = f"/tmp/plant-{bid}"
    shutil.rmtree(tree, ignore_errors=True)
    shutil.copytree("/repo", tree, symlinks=True)
    try:
        for f, old, new in b["edits"]:
            p = Path(tree, f)
            s = p.read_text()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        out = V / "seeded" / bid
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(sh("git diff", cwd=tree).stdout)
        (out / "demo.py").write_text(b["demo"].lstrip("\n"))
        (out / "demo.sh").write_text(DEMO)
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        t = tests(tree)
        ok = "86 passed" in t[-1] and "failed" not in t[-1]
        d0 = sh(str(out / "demo.sh"), cwd="/repo")
        d1 = sh(str(out / "demo.sh"), cwd=tree)
        print(f"{bid}: tests {'ok' if ok else t[-6:]}; demo base={d0.returncode} patched={d1.returncode}", flush=True)
        if d0.returncode or not d1.returncode:
            print(d0.stdout, d0.stderr[-800:], d1.stdout, d1.stderr[-500:])
        if check and (V / f"mc/checks/{b['prop'].lower()}.py").exists():
            c = sh(f"./check {b['prop']} --tier quick", cwd=V, env=dict(os.environ, MC_REPO=tree))
            lines = c.stdout.strip().splitlines()
            print(f"   {b['prop']} exit={c.returncode} {lines[1][:230] if len(lines) > 1 else lines[-1:]}", flush=True)
        return ok and not d0.returncode and d1.returncode
    finally:
        shutil.rmtree(tree, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for bid in sys.argv[2:] or bugs:
        one(bid, bugs[bid])
