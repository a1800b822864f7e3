#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from a list of those at first missed and the seeds' meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = set(open(V + "/tools/first_missed.txt").read().split())
rows = ["| planted bug | needs | caught by | |", "|----|----|----|----|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "\\|"), m["property"], "at first missed" if d in FIRST else ""))
s = open(V + "/DESIGN.md").read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
