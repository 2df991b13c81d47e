"""python3 tools/revert.py [PROP...]: undoes each recorded repair in a scratch copy and runs the check of its property, which must report it"""
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
only = sys.argv[1:]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


for line in (V / "KNOWN_FINDINGS.txt").read_text().splitlines():
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if not m or only and m[1] not in only and m[2] not in only:
        continue
    t = tempfile.mkdtemp(prefix="revert-")
    try:
        shutil.rmtree(t)
        shutil.copytree("/repo", t, symlinks=True)
        r = sh(f"git -c user.name=x -c user.email=x@x revert --no-edit {m[2]}", cwd=t)
        if r.returncode:
            sh("git revert --abort", cwd=t)
            d = sh(f"git show {m[2]} | git apply -R --3way", cwd=t)
            print(m[1], m[2], "CONFLICT", m[3], d.stderr.strip().splitlines()[-1:], flush=True)
            continue
        c = sh(f"./check {m[1]} --tier quick", cwd=V, env={**__import__("os").environ, "MC_REPO": t})
        first = [x for x in c.stdout.splitlines() if "VIOLATION" in x or x.startswith("  case")]
        print(m[1], m[2], "exit", c.returncode, m[3][:60], "|", (first or c.stdout.splitlines()[-1:] or [""])[0][:160], c.stderr[-200:] if c.returncode == 2 else "", flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
