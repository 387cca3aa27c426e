#!/usr/bin/env python3
"""trybugs.py [id ...]: applies each seeded change to /repo, runs the check of its property, undoes it."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
for i in ids:
    d = ROOT + "/seeded/" + i
    if not os.path.exists(d + "/meta.json"):
        continue
    p = json.load(open(d + "/meta.json"))["property"]
    r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if r.returncode:
        print(i, "DOES NOT APPLY"); continue
    try:
        r = subprocess.run([sys.executable, ROOT + "/run.py", p], cwd=ROOT, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, p, "caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, [os.path.basename(x) for x in v], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
