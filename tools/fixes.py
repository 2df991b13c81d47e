"""append unrecorded fix: commits to KNOWN_FINDINGS.txt:  python3 tools/fixes.py HASH=PROP ..."""
import subprocess, sys
from pathlib import Path
K = Path(__file__).resolve().parent.parent / "KNOWN_FINDINGS.txt"
m = dict(a.split("=") for a in sys.argv[1:])
k = K.read_text()
for l in subprocess.run("git -C /repo log --reverse --format='%h %s' 746c455..HEAD", shell=True, text=True, capture_output=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if h not in k:
        if h in m:
            k += f"fixed: property={m[h]} {h} {s[5:]}\n"
        else:
            print("unrecorded", l)
K.write_text(k)
