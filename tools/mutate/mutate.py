#!/usr/bin/env python3
"""mutate.py OUT SEED COUNT [FILE-PREFIX...]: mutants of /repo drawn at random, each in a scratch clone:
build, stable tests, then the checks of MAP in turn until one reports it. Appends one JSON line per mutant
to OUT. Mutants that do not build or that the tests notice are not counted."""
import json, os, random, subprocess, sys, shutil, tempfile, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
MAP = [("cmd/main", "C23"),
       ("cmd/client/", "C05 C08 C07 C23 C01 C09 C15 C02 C25 C11"),
       ("cmd/coordinator/CoordinatorLauncher", "C01 C05 C23 C21 C15 C24 C02 C08 C19"),
       ("cmd/coordinator/", "C07 C05 C08 C06 C21 C09 C01 C04 C02 C19 C15 C23 C24"),
       ("cmd/server/ServerLauncher", "C19 C23 C01 C18"),
       ("cmd/server/", "C19 C18 C07 C04 C03 C02 C01 C21 C23"),
       ("cmd/bridge/", "C04 C05 C26 C20 C07 C06 C08 C09"),
       ("util/shuffle/", "C17 C18 C03 C01"),
       ("util/", "C20 C10 C22 C07 C11 C01 C15 C23"),
       ("primitive/lrs/", "C16"),
       ("primitive/fujiokam/", "C13 C15 C14 C26 C12 C05 C04 C20"),
       ("primitive/pedersen_fujiokam/", "C14 C26 C04 C05"),
       ("primitive/pedersen/", "C12 C03 C01")]
SKIP = ("verif", "test.go", "_test.go", "DissentClient")
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def names(x): return set(x if isinstance(x, list) else list(x))
def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pre = sys.argv[4:] or [""]
    tmp = tempfile.mkdtemp(prefix="mutate-")
    repo = tmp + "/repo"
    sh(["git", "clone", "-q", "/repo", repo])
    for f in ("env.sh", "build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/opt/vp/mod", tmp + "/mod").replace("/opt/vp/env.sh", tmp + "/env.sh").replace("/opt/vp/log", tmp + "/log").replace("cd /repo", "cd " + repo).replace("/repo/go.", repo + "/go.")
        open(tmp + "/" + f, "w").write(t)
    v = tmp + "/verif"
    os.mkdir(v)
    sh("cp -a /verif/run.py /verif/checks.py /verif/harness /verif/overlay /verif/known-findings.txt " + v)
    sh(["sed", "-i", "s#=> /repo#=> %s#" % repo, v + "/harness/go.mod"])
    sh(["sed", "-i", 's#t.get("shrink", "15s" if tier == "quick" else "60s")#"0s"#; s#800 if tier#300 if tier#', v + "/run.py"])
    files = [f for f in sh("git ls-files '*.go'", cwd=repo).stdout.split() if not any(s in f for s in SKIP) and any(f.startswith(p) for p in pre)]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = names(base.get("stable", base.get("tests", base.get("passed", []))))
    e = dict(os.environ)
    sh(["go", "build", "-o", tmp + "/gen", HERE + "/gen.go"], env=dict(os.environ, GO111MODULE="off"))
    g = sh([tmp + "/gen"] + files, cwd=repo)
    ms = [json.loads(l) for l in g.stdout.split("\n") if l.startswith("{")]
    # every function about equally often
    r = random.Random(seed)
    by = {}
    for m in ms: by.setdefault((m["File"], m["Func"]), []).append(m)
    pick = []
    for k in sorted(by):
        r.shuffle(by[k])
        pick += [((i + r.random()) / len(by[k]) ** .7, m) for i, m in enumerate(by[k])]
    pick.sort(key=lambda t: t[0])
    done = 0
    seen = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); seen.add((d["File"], d["From"], d["To"], d["New"]))
    for _, m in pick:
        if done >= count: break
        key = (m["File"], m["From"], m["To"], m["New"])
        if key in seen: continue
        p = os.path.join(repo, m["File"])
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["From"]] + m["New"].encode() + src[m["To"]:])
        try:
            m["state"] = "?"
            if sh(["bash", tmp + "/build.sh"]).returncode: m["state"] = "does not build"; continue
            sh(["bash", tmp + "/test.sh", tmp + "/out.json"])
            try: got = json.load(open(tmp + "/out.json"))
            except Exception: got = {}
            if stable - names(got.get("passed", got.get("pass", []))): m["state"] = "tests"; continue
            done += 1
            m["state"] = "SURVIVED"; m["runs"] = []
            for c in [c for q, c in MAP if m["File"].startswith(q)][0].split():
                t0 = time.time()
                x = sh(["python3", v + "/run.py", c, "quick"], env=dict(os.environ, VERIF_SEED=str(r.randrange(1, 1000)), VERIF_TIER="quick"))
                why = [l.strip() for l in x.stdout.split("\n") if "[rapid]" in l or l.startswith(("panic:", "CHECK-ERROR", "fatal"))][:1]
                m["runs"].append([c, x.returncode, round(time.time() - t0), (why or [""])[0][:200]])
                if x.returncode == 1: m["state"] = "caught " + c; break
        finally:
            open(p, "wb").write(src)
            with open(out, "a") as o: o.write(json.dumps(m) + "\n")
    shutil.rmtree(tmp, ignore_errors=True)
main()
