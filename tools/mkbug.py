#!/usr/bin/env python3
"""mkbug.py SPEC.py [id ...]: builds /verif/seeded/<id> from a spec and confirms it in a scratch copy.
A spec is a list BUGS of dict(id, property, edits=[(file, old, new)], pkg, demo, needs, breaks)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/mkbug"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# cwd: the repository. Runs the test beside this script inside the package.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "${tmp:?}"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export DEMO_DIR="$tmp" TMPDIR="$tmp"
timeout 280 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def stable_failures(wt):
    b = json.load(open("/opt/vp/BASELINE.json"))
    if os.path.exists(wt + "/pf/myfile_conc_0.bin"):
        os.remove(wt + "/pf/myfile_conc_0.bin")
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], wt, env=dict(ENV, GODEBUG="randautoseed=0"))
    res = {}
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Test") and d.get("Action") in ("pass", "fail", "skip"):
            res[(d["Package"], d["Test"])] = d["Action"]
    passed = {"%s::%s" % k for k, v in res.items() if v == "pass"} | {"%s/%s" % k for k, v in res.items() if v == "pass"} | {"%s.%s" % k for k, v in res.items() if v == "pass"} | {"%s %s" % k for k, v in res.items() if v == "pass"}
    return sorted(s for s in b["stable"] if s not in passed)


def own_lines(wt):
    """lines the patch removes that are not from the original commit"""
    import re
    root = sh(["git", "rev-list", "--max-parents=0", "HEAD"], wt).stdout.split()[0]
    out, f = [], None
    for l in sh(["git", "diff", "-U0"], wt).stdout.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m and (m.group(2) or "1") != "0":
            a, n = int(m.group(1)), int(m.group(2) or "1")
            bl = sh(["git", "blame", "-s", "--root", "-l", "-L", "%d,+%d" % (a, n), "HEAD", "--", f], wt).stdout
            out += [x for x in bl.splitlines() if not x.lstrip("^").startswith(root)]
    return out


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    for b in g["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        if not want and os.path.exists(d):
            continue
        for x in ("/tmp/mkbug/a", "/tmp/mkbug/b"):
            shutil.rmtree(x, ignore_errors=True)
            os.makedirs(SC, exist_ok=True)
            sh(["git", "clone", "-q", "/repo", x], SC)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SC, "b", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT does not match once:", f, s.count(old)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        mine = own_lines(SC + "/b")
        if mine:
            print(b["id"], "CHANGES LINES OF A FIX:", mine); continue
        r = sh(["go", "build", "./..."], SC + "/b")
        if r.returncode:
            print(b["id"], "BUILD FAILS", r.stdout[-1500:]); continue
        sf = stable_failures(SC + "/b")
        if sf:
            print(b["id"], "TESTS CATCH IT:", sf[:6]); continue
        t = os.path.join(SC, b["id"])
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        open(t + "/patch.diff", "w").write(sh(["git", "diff"], SC + "/b").stdout)
        open(t + "/demo.sh", "w").write(DEMO % b)
        os.chmod(t + "/demo.sh", 0o755)
        open(t + "/demo_test.go", "w").write(b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(t + "/meta.json", "w"), indent=1)
        r1 = sh(["bash", t + "/demo.sh"], SC + "/a")
        r2 = sh(["bash", t + "/demo.sh"], SC + "/b")
        if r1.returncode != 0:
            print(b["id"], "DEMO FAILS on the unchanged tree", r1.stdout[-1500:]); continue
        if r2.returncode == 0 or "build failed" in r2.stdout:
            print(b["id"], "DEMO PASSES with the change (or does not build)", r2.stdout[-800:]); continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.move(t, d)
        print(b["id"], "ok:", [l for l in r2.stdout.splitlines() if "demo" in l][:2])


main()
