#!/usr/bin/env python3
"""kf.py fixed "<property> <commit> <what>" : records a repaired defect"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
for a in sys.argv[2:]:
    d["fixed"].append("fixed: property=" + a)
json.dump(d, open(p, "w"), indent=1)
