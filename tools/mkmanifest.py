#!/usr/bin/env python3
"""Regenerates MANIFEST.json from plans.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/build.py san && python3 tools/build.py plain", checks=[], not_applicable=[], hooks=dict(guard="EXSEISDAT_MONITOR", enable="tools/build.py compiles /repo's sources with -DEXSEISDAT_MONITOR", source_commits=["d45c7be", "dfcd11e"]), notes="see DESIGN.md; monitors attach through PMPI interposition and public headers; the one hook lowers memory limits of block loops")
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough",
                                evidence_file=f"evidence/{i}.json", technique=pl["technique"], level="exploration", level_note=pl["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check registered yet"))
if not m["not_applicable"]:
    del m["not_applicable"]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
