#!/usr/bin/env python3
"""mkseed.py ID... : (re)make /verif/seeded/ID from tools/seeds/ID.py and confirm it in a scratch copy of
/repo: applies, changes original lines, builds, passes the stable tests, the demo passes without and fails
with the change, and (unless -n) how the check of its property takes it.

tools/seeds/ID.py defines: property, needs, breaks, edits=[(file, old, new)], demo (Go source of
demo_test.go), pkg (directory of the demo, default zzdemo), bare (no in-process run of tools/seedlib),
flags (of go test, optional), also (other properties whose checks are tried)."""
import json, os, subprocess, sys, shutil, tempfile, runpy, concurrent.futures as cf, time
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
NAMES = json.load(open("/opt/vp/BASELINE.json"))
def names(x): return set(x if isinstance(x, list) else list(x))
def stable(d): return names(d.get("stable", d.get("tests", d.get("passed", d.get("pass", [])))))
def main(i, check):
    s = runpy.run_path("/verif/tools/seeds/%s.py" % i)
    d = "/verif/seeded/" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    pkg = s.get("pkg", "zzdemo")
    shutil.copy("/verif/tools/seedlib/demo.sh", d)
    if pkg == "zzdemo" and not s.get("bare"): shutil.copy("/verif/tools/seedlib/minisim_test.go", d)
    open(d + "/pkg", "w").write(pkg + "\n")
    if s.get("flags"): open(d + "/flags", "w").write(s["flags"] + "\n")
    open(d + "/demo_test.go", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="mkseed-")
    try:
        repo = tmp + "/repo"
        sh(["git", "clone", "-q", "/repo", repo])
        for f in ("env.sh", "build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/opt/vp/mod", tmp + "/mod").replace("/opt/vp/env.sh", tmp + "/env.sh").replace("/opt/vp/log", tmp + "/log").replace("cd /repo", "cd " + repo).replace("/repo/go.", repo + "/go.")
            open(tmp + "/" + f, "w").write(t)
        demo = tmp + "/demo"
        shutil.copytree(d, demo)
        t = open(demo + "/demo.sh").read().replace("/opt/vp/env.sh", tmp + "/env.sh").replace("/opt/vp/mod", tmp + "/mod")
        open(demo + "/demo.sh", "w").write(t)
        for f in os.listdir(demo):
            if f.endswith((".diff", ".json")): os.remove(demo + "/" + f)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f); t = open(p).read()
            if t.count(old) != 1: return "%s BAD EDIT %s %d %r" % (i, f, t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        sh(["git", "-C", repo, "checkout", "--", "."])
        n = 0
        for f in {e[0] for e in s["edits"]}:
            bl = sh(["git", "-C", repo, "blame", "-s", f]).stdout.split("\n")
            orig = [l.split(") ", 1)[1] for l in bl if l.startswith("^") and ") " in l]
            n += sum(1 for l in diff.decode().split("\n") if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in orig)
        if n == 0: return i + " NO ORIGINAL LINE CHANGED"
        r = sh(["bash", demo + "/demo.sh"], cwd=repo)
        if r.returncode != 0: return i + " DEMO FAILS UNPATCHED\n" + r.stdout[-3000:]
        r = sh(["git", "-C", repo, "apply", d + "/patch.diff"])
        if r.returncode: return i + " does not apply" + r.stdout
        r = sh(["bash", tmp + "/build.sh"])
        if r.returncode: return i + " DOES NOT BUILD\n" + r.stdout[-2000:]
        sh(["bash", tmp + "/test.sh", tmp + "/out.json"])
        got = json.load(open(tmp + "/out.json"))
        missing = stable(NAMES) - names(got.get("passed", got.get("pass", [])))
        if missing: return i + " STABLE TESTS FAIL %s" % missing
        r = sh(["bash", demo + "/demo.sh"], cwd=repo)
        if r.returncode == 0: return i + " DEMO PASSES PATCHED\n" + r.stdout[-1500:]
        why = [l.strip() for l in r.stdout.split("\n") if "demo_test.go" in l or l.startswith("panic:") or "DATA RACE" in l][:1]
        if r.returncode == 3: return i + " DEMO DOES NOT BUILD PATCHED\n" + r.stdout[-1500:]
        out = i + " ok; demo: %s" % why
        if check:
            v = tmp + "/verif"
            sh(["mkdir", v]); sh("cp -a /verif/run.py /verif/checks.py /verif/harness /verif/overlay /verif/known-findings.txt " + v)
            sh(["sed", "-i", "s#=> /repo#=> %s#" % repo, v + "/harness/go.mod"])
            for p in [s["property"]] + s.get("also", []):
                t0 = time.time()
                r = sh(["python3", v + "/run.py", p, "quick"], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                open("/tmp/mk.%s.%s" % (i, p), "w").write(r.stdout)
                ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
                why = [l.strip() for l in r.stdout.split("\n") if "[rapid]" in l or l.startswith(("panic:", "CHECK-ERROR"))][:1]
                out += "\n    %s %s (%d, %.0fs): %s" % (p, "caught" if ok else "MISSED", r.returncode, time.time() - t0, (why or [""])[0][:220])
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "-n"]
    with cf.ThreadPoolExecutor(2) as ex:
        for f in cf.as_completed([ex.submit(main, i, "-n" not in sys.argv) for i in args]):
            print(f.result(), flush=True)
