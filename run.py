#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--replay FILE]

Builds the harness against /repo's working tree, runs the generated-input tests of one
property in parallel shards, writes evidence/<property>.json and prints the verdict.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else: the check itself could not work."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
from checks import CHECKS

def env():
    e = dict(os.environ)
    gobin = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(gobin):
        e["PATH"] = gobin + ":" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GOSUMDB="off",
             GONOSUMDB="*", CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(e):
        if k.startswith("HX_"):
            del e[k]
    return e

def error(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(pkg, tmp, e):
    """Test binary of one harness package; retried once (a busy machine can fail a link)."""
    os.makedirs(tmp, exist_ok=True)
    mod = os.path.join(tmp, "go.mod")
    shutil.copy(os.path.join(HERE, "harness/go.mod"), mod)
    shutil.copy(os.path.join(HERE, "harness/go.sum"), os.path.join(tmp, "go.sum"))
    h = os.path.join(HERE, "harness")
    d = sh(["go", "list", "-modfile", mod, "-m", "-f", "{{.Dir}} {{.GoMod}}", "github.com/dedis/crypto"], cwd=h, env=e)
    if d.returncode != 0:
        error("go list failed:\n" + d.stdout)
    # the dependency with its suite's parameters validated once per process (overlay/qrsuite.go)
    ded = os.path.join(tmp, "dedis-crypto")
    src, gomod = d.stdout.split()
    shutil.copytree(src, ded)
    sh(["chmod", "-R", "u+w", ded])
    if not os.path.exists(os.path.join(ded, "go.mod")):
        shutil.copy(gomod, os.path.join(ded, "go.mod"))
    shutil.copy(os.path.join(HERE, "overlay/qrsuite.go"), os.path.join(ded, "nist/qrsuite.go"))
    hmod = os.path.join(tmp, "h.mod")
    with open(mod) as f, open(hmod, "w") as o:
        o.write(f.read() + "\nreplace github.com/dedis/crypto => %s\n" % ded)
    shutil.copy(os.path.join(tmp, "go.sum"), os.path.join(tmp, "h.sum"))
    out = os.path.join(tmp, pkg + ".test")
    for attempt in (1, 2):
        b = sh(["go", "test", "-c", "-vet=off", "-trimpath", "-tags", "verif", "-modfile", hmod, "-o", out, "./" + pkg], cwd=h, env=e)
        if b.returncode == 0:
            break
    else:
        error("the harness does not build against /repo:\n" + b.stdout[-4000:])
    if pkg == "e2e":
        # the deployed program, without the hooks
        for flags, name in (([], "zrep"), (["-race"], "zrep-race")):
            b = sh(["go", "build", *flags, "-modfile", mod, "-o", os.path.join(tmp, name), "zRep/cmd"], cwd=h, env=e)
            if b.returncode != 0:
                error("the program does not build:\n" + b.stdout[-4000:])
    return out

def run_shards(binaries, prop, cfg, tier, seed, tmp, e):
    jobs = [(t, s) for t in cfg["tests"] for s in range(t.get("shards", 8))]
    # longest first
    jobs.sort(key=lambda j: -j[0].get("cost", 1))
    lock, results, stop = threading.Lock(), [], threading.Event()
    deadline = time.time() + (800 if tier == "quick" else 6 * 3600)
    def worker():
        while not stop.is_set():
            with lock:
                if not jobs:
                    return
                t, s = jobs.pop(0)
            name = t["run"]
            d = os.path.join(tmp, "run", "%s-%d" % (name, s))
            os.makedirs(d)
            ee = dict(e)
            scale = t.get(tier, {"quick": 1, "thorough": 20}[tier])
            ee.update(HX_OUT=d, HX_SEED=str(seed), HX_SHARD=str(s), HX_SCALE=repr(float(scale)), HX_TIER=tier,
                      HX_KNOWN=os.path.join(HERE, "known-findings.txt"), HX_BIN=os.path.join(tmp, t["pkg"], "zrep"), HX_BIN_RACE=os.path.join(tmp, t["pkg"], "zrep-race"), HX_TMP=d, GOMAXPROCS=str(t.get("procs", 2)))
            log = os.path.join(d, "log")
            with open(log, "w") as lf:
                p = subprocess.Popen([binaries[t["pkg"]], "-test.run", "^%s$" % name, "-test.timeout", "0", "-test.v",
                                      "-rapid.shrinktime", t.get("shrink", "15s" if tier == "quick" else "60s")],
                                     cwd=d, env=ee, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
                rc = None
                while rc is None:
                    try:
                        rc = p.wait(timeout=0.1)
                    except subprocess.TimeoutExpired:
                        if time.time() > deadline:
                            try: os.killpg(p.pid, 9)
                            except OSError: pass
                            p.wait()
                            rc = "timeout"
                        elif stop.is_set():
                            try: os.killpg(p.pid, 9)
                            except OSError: pass
                            p.wait()
                            rc = "stopped"
            try: os.killpg(p.pid, 9)     # anything it left behind
            except OSError: pass
            with lock:
                results.append((t, s, d, rc))
            if rc != 0 and rc != "stopped":
                stop.set()
    ws = [threading.Thread(target=worker) for _ in range(cfg.get("parallel", 8))]
    [w.start() for w in ws]
    [w.join() for w in ws]
    return results

def read(p):
    with open(p, errors="replace") as f:
        return f.read()

def verdict_of(d, rc, name):
    """'ok', 'violation', 'error' or 'stopped' for one shard, with the text to show."""
    log = read(os.path.join(d, "log"))
    if rc == "stopped":
        return "stopped", ""
    if rc == 0:
        if "PASS" in log and os.path.exists(os.path.join(d, name + ".json")):
            return "ok", log
        return "error", log
    if rc == 1:
        # a failed test, or the code under test ended the process (log.Fatal) in the middle of a case
        rep = os.path.join(d, name + ".json")
        if "--- FAIL: " + name in log:
            return "violation", log
        if os.path.exists(rep) and not json.load(open(rep))["done"]:
            return "violation", log
        return "error", log
    if rc == 2 and re.search(r"^(panic:|fatal error: (all goroutines are asleep|concurrent map|stack))", log, re.M) \
            and "out of memory" not in log and "zRep/" in log and "HX-INFRA" not in log:
        # an uncaught panic in the code under test, outside of rapid's reach (another goroutine)
        return "violation", log
    return "error", log

def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    if args == ["--setup"]:
        setup()
        return
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[prop]
    t0 = time.time()
    e = env()
    tmp = tempfile.mkdtemp(prefix="zrepverif-")
    try:
        for t in cfg["tests"]:
            t.setdefault("pkg", cfg["pkg"])
        binaries = {pkg: build(pkg, os.path.join(tmp, pkg), e) for pkg in sorted({t["pkg"] for t in cfg["tests"]})}
        if replay:
            sys.exit(do_replay(binaries, cfg, replay, tmp, e))
        t1 = time.time()
        results = run_shards(binaries, prop, cfg, tier, seed, tmp, e)
        code = report(prop, cfg, tier, seed, results, t0, t1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)

def setup():
    """Warm the build cache: every harness package once."""
    tmp = tempfile.mkdtemp(prefix="zrepverif-")
    try:
        for pkg in sorted({t.get("pkg", c["pkg"]) for c in CHECKS.values() for t in c["tests"]}):
            build(pkg, os.path.join(tmp, pkg), env())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def do_replay(binaries, cfg, replay, tmp, e):
    info = json.load(open(replay))
    pkg = [t["pkg"] for t in cfg["tests"] if t["run"] == info["test"]][0]
    binary = binaries[pkg]
    d = os.path.join(tmp, "replay")
    os.makedirs(d)
    ee = dict(e)
    ee.update(info["env"])
    ee.update(HX_OUT=d, HX_TMP=d, HX_KNOWN=os.path.join(HERE, "known-findings.txt"), HX_BIN=os.path.join(tmp, pkg, "zrep"),
              HX_BIN_RACE=os.path.join(tmp, pkg, "zrep-race"))
    cmd = [binary, "-test.run", "^%s$" % info["test"], "-test.timeout", "0", "-test.v"]
    if info.get("failfile"):
        f = os.path.join(d, "case.fail")
        with open(f, "w") as o:
            o.write(info["failfile"])
        cmd += ["-rapid.failfile", f]
    p = subprocess.run(cmd, cwd=d, env=ee)
    return p.returncode

def report(prop, cfg, tier, seed, results, t0, t1):
    violations, errors, logs = [], [], []
    for t, s, d, rc in results:
        v, log = verdict_of(d, rc, t["run"])
        logs.append(log)
        if v == "violation":
            violations.append((t, s, d, log))
        elif v == "error":
            errors.append((t, s, d, rc, log))
    # evidence
    per, nt, samples, classes, evals, rules = {}, set(), [], {}, 0, {}
    for t, s, d, rc in results:
        f = os.path.join(d, t["run"] + ".json")
        if not os.path.exists(f):
            continue
        r = json.load(open(f))
        evals += r["evals"]
        q = per.setdefault(t["run"], {"evaluations": 0, "nontrivial": set(), "classes": {}})
        q["evaluations"] += r["evals"]
        for k in r["nontrivial"] or []:
            nt.add(t["run"] + k)
            q["nontrivial"].add(k)
        for k, n in (r["classes"] or {}).items():
            q["classes"][k] = q["classes"].get(k, 0) + n
        rules[t["run"]] = r["rule"]
        if len(samples) < 24:
            samples += [t["run"] + ": " + x for x in (r["samples"] or [])[:3]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nt),
                       "rule": "; ".join("%s: %s" % (k, rules[k]) for k in sorted(rules)),
                       "samples": samples[:24] or ["(none)"],
                       "per_test": {k: {"evaluations": v["evaluations"], "distinct_nontrivial": len(v["nontrivial"]),
                                        "classes": v["classes"]} for k, v in sorted(per.items())}},
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)" %
          (prop, tier, seed, evals, len(nt), time.time() - t0, t1 - t0))
    for k, v in sorted(per.items()):
        print("  %s: %d cases, %d non-trivial %s" % (k, v["evaluations"], len(v["nontrivial"]),
              " ".join("%s=%d" % (c, n) for c, n in sorted(v["classes"].items()))))
    for line in sorted({l for log in logs for l in re.findall(r"^KNOWN-FINDING: property=%s .*$" % prop, log, re.M)}):
        print(line)
    if violations:
        t, s, d, log = violations[0]
        path = save_replay(prop, t, s, d, log, tier, seed)
        tail = [l for l in log.splitlines() if not l.startswith("[")]
        print("---- %s shard %d ----" % (t["run"], s))
        print("\n".join(tail[-60:])[-6000:])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        t, s, d, rc, log = errors[0]
        print(log[-3000:])
        error("%s shard %d ended with %r" % (t["run"], s, rc))
    return 0

def save_replay(prop, t, s, d, log, tier, seed):
    ff = glob.glob(os.path.join(d, "testdata/rapid/**/*.fail"), recursive=True)
    scale = t.get(tier, {"quick": 1, "thorough": 20}[tier])
    info = {"property": prop, "test": t["run"], "tier": tier, "failfile": read(ff[0]) if ff else None,
            "env": {"HX_SEED": str(seed), "HX_SHARD": str(s), "HX_SCALE": repr(float(scale)), "HX_TIER": tier},
            "how": "python3 run.py %s --replay <this file>" % prop, "log": log[-20000:]}
    out = os.path.join(HERE, "replays", prop)
    os.makedirs(out, exist_ok=True)
    body = json.dumps(info, indent=1)
    path = os.path.join(out, hashlib.sha256(body.encode()).hexdigest()[:12] + ".json")
    with open(path, "w") as f:
        f.write(body)
    return path

if __name__ == "__main__":
    main()
