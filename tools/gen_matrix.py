#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(H, "tools/caught.json")
if os.path.exists(p):
    caught = json.load(open(p))
rows = ["| planted bug | what it breaks | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), caught.get(i, m["property"])))
f = os.path.join(H, "DESIGN.md")
s = open(f).read().split("<!-- matrix -->")[0]
open(f, "w").write(s + "<!-- matrix -->\n" + "\n".join(rows) + "\n")
