#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, properties.jsonl and the hook commits in /repo."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, TECHNIQUE, NOTE, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("verif:")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUE[CHECKS[i]["pkg"]], "level": "exploration",
                       "level_note": NOTE[CHECKS[i]["pkg"]]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "verif", "enable": "go build/test -tags verif (the harness module in /verif/harness replaces zRep by /repo)", "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
