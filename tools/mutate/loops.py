"""loops.py OUT.json: for every counting loop of the library, mutants that leave out one turn (the 4th, 20th, 130th or the last of many)"""
import re, sys, json, glob
out = open(sys.argv[1], "w")
n = 0
for f in sorted(glob.glob("/repo/pf/*.go") + glob.glob("/repo/pfc/*.go") + glob.glob("/repo/pfutil/*.go") + glob.glob("/repo/elasticity/*.go") + glob.glob("/repo/cmd/*.go")):
    if f.endswith("_test.go"):
        continue
    s = open(f).read()
    for m in re.finditer(r"for (\w+)(?:, \w+)? := (?:range [^\n{]+|0; \w+ < [^;\n]+; \w+\+\+) \{\n", s):
        i = m.group(1)
        if i == "_" or (re.search(r"range (.*) \{", m.group(0)) and "map" in m.group(0)):
            continue
        for k in (3, 19, 129):
            off = len(s[:m.end()].encode())
            out.write(json.dumps(dict(file=f[6:], line=s[:m.end()].count("\n"), off=off, len=0, old="", new="if %s == %d {\n continue\n}\n" % (i, k), kind="turn%d" % k)) + "\n")
            n += 1
print(n)
