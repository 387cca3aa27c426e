#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]   run the check of one property
run.py --replay <file>                          run one saved failing case again
run.py --setup                                  build everything once

Every test function TestXnn_* of the harness belongs to property Xnn. The
harness is compiled against /repo's working tree; each test function runs in
its own process in a scratch folder.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.json")
TIMEOUT = {"quick": 700, "thorough": 3600}


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", CGO_ENABLED="1",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
        GOMAXPROCS="2", GOTRACEBACK="single", PBT_KNOWN=KNOWN, TZ="UTC", LC_ALL="C",
    )
    for k in list(e):
        if k.startswith("RAPID_") or k == "GODEBUG":
            del e[k]
    return e


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def packages():
    """property id -> (package folder, [test functions])"""
    out = {}
    for d in sorted(os.listdir(HARNESS)):
        p = os.path.join(HARNESS, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if not f.endswith("_test.go"):
                continue
            for m in re.finditer(r"^func (Test([A-Z]\d{2,3})_\w+)\(", open(os.path.join(p, f)).read(), re.M):
                out.setdefault(m.group(2), (d, []))[1].append(m.group(1))
                if out[m.group(2)][0] != d:
                    die("property %s is spread over two packages" % m.group(2))
    return out


def build(pkg, scratch, e):
    binary = os.path.join(scratch, pkg + ".test")
    e = dict(e, GOMAXPROCS=str(os.cpu_count() or 8))
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-o", binary, "./" + pkg], cwd=HARNESS, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(binary):
        die("build of the harness against /repo failed\n" + r.stdout[-4000:])
    main = None
    if pkg in ("cli",):
        main = os.path.join(scratch, "gopf")
        r = subprocess.run(["go", "build", "-o", main, "."], cwd="/repo", env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("build of /repo failed\n" + r.stdout[-4000:])
    return binary, main


def one(binary, main, test, scratch, e, seed, timeout, failfile=None):
    work = tempfile.mkdtemp(prefix=test + "_", dir=scratch)
    stats = os.path.join(work, "stats")
    os.mkdir(stats)
    ee = dict(e, PBT_STATS=stats, TMPDIR=work, PBT_GOPF=main or "")
    cmd = [binary, "-test.run", "^%s$" % test, "-test.v", "-test.timeout", "%ds" % (timeout + 60), "-rapid.seed=%d" % seed]
    if failfile:
        cmd.append("-rapid.failfile=" + failfile)
    try:
        r = subprocess.run(cmd, cwd=work, env=ee, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, stdin=subprocess.DEVNULL)
        out, rc = r.stdout.decode("utf-8", "replace"), r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf-8", "replace"), "timeout"
    st = None
    p = os.path.join(stats, test + ".json")
    if os.path.exists(p):
        st = json.load(open(p))
    fail = None
    for root, _, files in os.walk(os.path.join(work, "testdata")):
        for f in files:
            fail = os.path.join(root, f)
    failtext = open(fail, errors="replace").read() if fail else ""
    shutil.rmtree(work, ignore_errors=True)
    return dict(test=test, rc=rc, out=out, stats=st, failtext=failtext)


def verdict(r):
    """ok | violation | died | error"""
    if r["rc"] == 0:
        return "ok" if r["stats"] is not None else "error"
    if r["rc"] == "timeout" or "panic: test timed out" in r["out"]:
        return "error"
    if isinstance(r["rc"], int) and r["rc"] < 0:
        # ended by a signal: SIGKILL and SIGTERM come from outside
        return "error" if r["rc"] in (-9, -15) else "died"
    if "[rapid] only generated" in r["out"] or "HARNESS-ERROR" in r["out"]:
        return "error"
    if "out of memory" in r["out"] or "cannot allocate memory" in r["out"]:
        return "error"
    if "--- FAIL: " + r["test"] in r["out"]:
        return "violation"
    return "died"


def clip(s, n=8000):
    return s if len(s) <= n else s[: n // 2] + "\n...\n" + s[-n // 2:]


def check(pid, tier):
    t0 = time.time()
    seed0 = int(os.environ.get("VERIF_SEED", "1") or "1")
    seed = (seed0 & 0x7FFFFFFF) + 1000003
    pk = packages()
    if pid not in pk:
        die("no check for property " + pid)
    pkg, tests = pk[pid]
    e = env()
    e["VERIF_TIER"] = tier
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    try:
        binary, main = build(pkg, scratch, e)
        jobs = int(os.environ.get("VERIF_JOBS", "6"))
        with cf.ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda t: one(binary, main, t, scratch, e, seed, TIMEOUT[tier]), tests))
        violations, errors, known = [], [], []
        for r in res:
            v = verdict(r)
            if v == "died":
                # ended from inside (log.Fatal, unrecovered panic): believed when it happens again
                r2 = one(binary, main, r["test"], scratch, e, seed, TIMEOUT[tier])
                v = "violation" if verdict(r2) in ("died", "violation") else "error"
            if v == "violation":
                violations.append(r)
            elif v == "error":
                errors.append(r)
            if r["stats"]:
                known += r["stats"].get("known") or []
        sts = [r["stats"] for r in res if r["stats"]]
        labels = {}
        samples = []
        for s in sts:
            if s["labels"]:
                labels[s["test"]] = s["labels"]
            samples += ["%s: %s" % (s["test"], x) for x in (s["samples"] or [])[:2]]
        replays = []
        for r in violations:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s_%s.json" % (pid, r["test"]))
            json.dump(dict(property=pid, package=pkg, test=r["test"], seed=seed, tier=tier,
                           failfile=r["failtext"], output=clip(r["out"])), open(path, "w"), indent=1)
            replays.append(path)
        doc = dict(
            property=pid, tier=tier, seed=seed0, level="exploration",
            coverage=dict(
                evaluations=sum(s["evaluations"] for s in sts),
                distinct_nontrivial=sum(s["distinct_nontrivial"] for s in sts),
                rule=" | ".join("%s: %s" % (s["test"], s["rule"]) for s in sts),
                samples=samples,
                per_test={s["test"]: dict(evaluations=s["evaluations"], nontrivial=s["nontrivial"],
                                          distinct_nontrivial=s["distinct_nontrivial"]) for s in sts},
                labels=labels,
            ),
            assumptions=[
                "sampled inputs, not exhaustive; floating point results are compared with the tolerance stated in DESIGN.md",
                "the Go toolchain, FFTW, SQLite and gonum behave as documented",
            ],
            wall_s=round(time.time() - t0, 2),
            violations=len(violations), replays=replays,
        )
        json.dump(doc, open(ev, "w"), indent=1)
        for s in sts:
            print("%-45s cases=%d nontrivial=%d distinct=%d %s" % (
                s["test"], s["evaluations"], s["nontrivial"], s["distinct_nontrivial"], json.dumps(s["labels"])))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        for r, p in zip(violations, replays):
            print("---- %s" % r["test"])
            print(clip(r["out"], 3000))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        if violations:
            sys.stdout.flush()
            return 1
        if errors:
            for r in errors:
                print("---- %s: no verdict (exit %s)" % (r["test"], r["rc"]))
                print(clip(r["out"], 3000))
            print("ERROR: property=%s has no verdict" % pid)
            return 2
        print("OK property=%s tier=%s wall=%.1fs" % (pid, tier, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    e = env()
    e["VERIF_TIER"] = d["tier"]
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        binary, main = build(d["package"], scratch, e)
        ff = None
        if d["failfile"]:
            ff = os.path.join(scratch, "case.fail")
            open(ff, "w").write(d["failfile"])
        r = one(binary, main, d["test"], scratch, e, d["seed"], 600, ff)
        print(r["out"])
        print("replay exit:", r["rc"])
        return 0 if r["rc"] == 0 else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["--setup"]:
        e = env()
        e["GOMAXPROCS"] = str(os.cpu_count() or 8)
        for p in sorted({v[0] for v in packages().values()}):
            scratch = tempfile.mkdtemp(prefix="verif_setup_")
            try:
                build(p, scratch, e)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        return
    if not a:
        die(__doc__)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    sys.exit(check(a[0], tier if tier in TIMEOUT else "quick"))


if __name__ == "__main__":
    main()
