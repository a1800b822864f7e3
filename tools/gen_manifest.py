#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from tools/table.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import table
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
         notes="Every check enumerates executions of the real code built from /repo's working tree; see DESIGN.md.")
for p in props:
    c = table.CHECKS.get(p)
    if c is None:
        m["not_applicable"].append(dict(property=p, reason=getattr(table, "NOT_APPLICABLE", {}).get(p, "check not built yet")))
        continue
    m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                            evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
