"""hand.py OUT.json [FILE.py ...]: turns hand written changes (property, file, old, new) into mutants for mutate.py"""
import json, sys, os, glob
out = []
files = sys.argv[2:] or sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/hand_*.py"))
for f in files:
    g = {}
    exec(open(f).read(), g)
    for n, (props, fn, old, new) in enumerate(g["CHANGES"]):
        s = open("/repo/" + fn).read()
        if s.count(old) != 1:
            print("CHECK", f, n, fn, s.count(old), repr(old[:60])); continue
        off = len(s[:s.index(old)].encode())
        out.append(dict(file=fn, line=s[:s.index(old)].count("\n") + 1, off=off, len=len(old.encode()), new=new, old=old, kind="hand", props=props.split()))
with open(sys.argv[1], "w") as w:
    for m in out:
        w.write(json.dumps(m) + "\n")
print(len(out))
