"""python3 tools/costs.py TIER [ID...]: runs the checks one after another and records wall time and coverage in tools/costs.json"""
import json
import subprocess
import sys
import time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
F = V / "tools/costs.json"
tier, ids = sys.argv[1], sys.argv[2:]
ids = ids or [c["property"] for c in json.load(open(V / "MANIFEST.json"))["checks"]]
for i in ids:
    t = time.time()
    r = subprocess.run(["./check", i, "--tier", tier], cwd=V, capture_output=True, text=True)
    w = time.time() - t
    ev = json.load(open(V / f"evidence/{i}.json"))
    c = ev["coverage"]
    unit = next(u for u in ("states", "distinct_fault_points", "distinct_nontrivial", "fault_points", "evaluations") if u in c)
    k = json.load(open(F)) if F.exists() else {}
    if r.returncode == 0:
        k.setdefault(i, {})[tier] = {"wall_s": round(w, 1), "n": c[unit], "unit": unit.replace("_", " ").replace("distinct nontrivial", "distinct cases")}
        F.write_text(json.dumps(k, indent=1, sort_keys=True) + "\n")
    print(i, r.returncode, round(w, 1), unit, c[unit], "exhaustive" if c.get("exhaustive") else c.get("exhaustive"), r.stdout.strip().splitlines()[-1][:200] if r.returncode else "", r.stderr[-300:] if r.returncode else "", flush=True)
