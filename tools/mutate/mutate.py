#!/usr/bin/env python3
"""mutate.py MUTS.json OUT.jsonl [--n N] [--workers W] [--seed S] [--only substr]
Mutation testing of the checks: every mutant that compiles and survives the existing tests is run
against the checks that cover its file. Nothing is written in /repo (go build -overlay)."""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, queue, hashlib
ap = argparse.ArgumentParser()
ap.add_argument("muts"); ap.add_argument("out")
ap.add_argument("--n", type=int, default=10**9); ap.add_argument("--workers", type=int, default=7)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--only", default="")
ap.add_argument("--harness", default="/verif/harness"); ap.add_argument("--retry", action="store_true", help="only mutants that were missed before")
A = ap.parse_args()
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1", GOPATH="/root/go", TZ="UTC", LC_ALL="C",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/tmp/mut/cache", GOMAXPROCS="2", PBT_KNOWN="/verif/known_findings.json")
MAP = {
 "pf/advection": "C10", "pf/boundTransform": "C11", "pf/chargeTransport": "C15", "pf/database": "D01 D03 D04", "pf/diffOp": "C10 C01",
 "pf/euler": "C02", "pf/fileIO": "D02 D01", "pf/gradientCalculator": "C10", "pf/homoLinElast": "C13", "pf/implicitEuler": "C04 C05",
 "pf/model": "C01 C09 C08", "pf/monitor": "C08", "pf/negative": "C11", "pf/noise": "C16 C05", "pf/pairCorr": "C12", "pf/rhsBuilder": "C01 C09",
 "pf/rk4": "C03", "pf/sdd": "C14 D02", "pf/solver": "C08 C02", "pf/sourceTerm": "C01 C02 C06", "pf/spectral": "C11", "pf/square": "C10", "pf/tensorial": "C10",
 "pf/userDefined": "C09 C01", "pf/util": "C01 C09 C11 D02 C07 C02", "pf/vandeven": "C11", "pf/volume": "C11", "pf/xdmf": "D02",
 "elasticity/rank4": "E01", "elasticity/shapes": "E02", "elasticity/strain": "E02 D06", "elasticity/": "E02 E01 C13",
 "pfc/ideal": "P02 C12", "pfc/initial": "P02", "pfc/lattice": "P01", "pfc/miller": "P01", "pfc/mode": "P02", "pfc/pairCorr": "P04", "pfc/periodic": "P03",
 "pfc/quad": "P02", "pfc/two": "P04",
 "pfutil/affine": "U02 P03", "pfutil/blur": "U02", "pfutil/fft": "C07", "pfutil/grid": "U01 D02 P03", "pfutil/index": "U01 C07", "pfutil/iter": "U01 C07",
 "pfutil/shapes": "U02", "pfutil/slice": "U01", "pfutil/voronoi": "U02", "cmd/energy": "D06", "cmd/template": "D06", "cmd/elast": "D06", "cmd/contour": "D05", "cmd/lineplot": "D05",
 "cmd/export": "D04", "cmd/util": "D03 D04 D05", "cmd/root": "D03 D06", "cmd/": "D03",
}
PKG = {"C01": "core", "C02": "core", "C03": "core", "C04": "core", "C05": "core", "C06": "core", "C07": "core", "C08": "core", "C09": "core", "C14": "core",
       "C10": "terms", "C11": "terms", "C12": "terms", "C15": "terms", "C16": "terms", "C13": "elast", "E01": "elast", "E02": "elast",
       "P01": "pfcx", "P02": "pfcx", "P03": "pfcx", "P04": "pfcx", "U01": "utilx", "U02": "utilx", "D01": "dbx", "D02": "dbx",
       "D03": "cli", "D04": "cli", "D05": "cli", "D06": "cli", "D07": "dbx"}
def props(f):
    for k, v in MAP.items():
        if f.startswith(k):
            return v.split()
    return []
def key(m): return hashlib.md5(("%s|%d|%s|%s|%s" % (m["file"], m["off"], m["old"], m["new"], m["kind"])).encode()).hexdigest()[:10]
def sh(cmd, cwd, timeout, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 99, "timeout"
import itertools
STABLE = {re.split(r"[:/ ]+", x)[-1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
TESTPK = {"pf": ["pf"], "pfc": ["pfc", "pf"], "pfutil": ["pfutil", "pf", "pfc", "elasticity"], "elasticity": ["elasticity", "pf"], "cmd": []}
lock = threading.Lock()
out = None
def work(w, m):
    d = "/tmp/mut/w%d" % w
    shutil.rmtree(d + "/run", ignore_errors=True); os.makedirs(d + "/run", exist_ok=True)
    src = open("/repo/" + m["file"], "rb").read()
    mod = src[:m["off"]] + m["new"].encode() + src[m["off"] + m["len"]:]
    assert src[m["off"]:m["off"]+m["len"]].decode() == m["old"], "stale mutant"
    mp = d + "/m.go"; open(mp, "wb").write(mod)
    ov = d + "/ov.json"; json.dump({"Replace": {"/repo/" + m["file"]: mp}}, open(ov, "w"))
    pk = m["file"].split("/")[0]
    rc, o = sh(["go", "build", "-overlay", ov, "-o", "/dev/null", "./" + pk], "/repo", 120)
    if rc: return "nobuild", ""
    built = {}
    for pr in m.get("props") or props(m["file"]):
        hp = PKG[pr]
        if hp not in built:
            rc, o = sh(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", d + "/" + hp + ".test", "./" + hp], A.harness, 200)
            if rc: return "harness-nobuild", o[-300:]
            if hp == "cli":
                rc, o = sh(["go", "build", "-overlay", ov, "-o", d + "/gopf", "."], "/repo", 200)
                if rc: return "nobuild", ""
            built[hp] = 1
        shutil.rmtree(d + "/run", ignore_errors=True); os.makedirs(d + "/run/st", exist_ok=True)
        e = dict(ENV, PBT_STATS=d + "/run/st", TMPDIR=d + "/run", PBT_GOPF=d + "/gopf")
        rc, o = sh(["bash", "-c", "ulimit -v 8000000; exec " + d + "/" + hp + ".test -test.run '^Test%s_' -test.failfast -test.timeout 400s -rapid.seed=7 -rapid.shrinktime=500ms" % pr], d + "/run", 420, e)
        if rc: return "caught", pr + (" timeout" if rc == 99 else "") + " " + " ".join(re.findall(r"--- FAIL: (\w+)", o)[:1])
    if not A.retry:
        for p in TESTPK[pk]:
            rc, o = sh(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", d + "/t.test", "./" + p], "/repo", 200)
            if rc: return "nobuild", o[-300:]
            shutil.copytree("/repo/" + p, d + "/run/" + p, dirs_exist_ok=True)
            rc, o = sh([d + "/t.test", "-test.timeout", "100s", "-test.v"], d + "/run/" + p, 120)
            if rc == 99 or set(re.findall(r"^\s*--- FAIL: (\S+)", o, re.M)) & STABLE or "panic:" in o: return "missed-but-tests-catch", ""
    return "MISSED", ""
def main():
    global out
    os.makedirs("/tmp/mut", exist_ok=True)
    ms = [json.loads(l) for l in open(A.muts)]
    done = {}
    if os.path.exists(A.out) and not A.retry:
        for l in open(A.out):
            x = json.loads(l); done[x["key"]] = x
    ms = [m for m in ms if A.only in m["file"] and key(m) not in done]
    random.Random(A.seed).shuffle(ms)
    ms = ms[:A.n]
    out = open(A.out, "a")
    q = queue.Queue()
    for m in ms: q.put(m)
    def loop(w):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r, why = work(w, m)
            except AssertionError as e: r, why = "stale", str(e)
            with lock:
                out.write(json.dumps(dict(m, key=key(m), result=r, why=why)) + "\n"); out.flush()
    ts = [threading.Thread(target=loop, args=(i,)) for i in range(A.workers)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
