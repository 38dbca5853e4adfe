#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/jobs.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = jobs.SPECS.get(p["id"])
    if not s:
        na.append(dict(property=p["id"], reason=jobs.NOT_APPLICABLE.get(p["id"], "no check built yet")))
        continue
    checks.append(dict(property=p["id"],
        quick_cmd=f"python3 tools/check.py {p['id']} --tier quick",
        thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=s["technique"], level=s["level"], level_note=s["note"]))
m = dict(version=1, setup_cmd="python3 tools/vbuild.py asan tsan plain",
         hooks=dict(guard="none", enable="No hooks: the checks build /repo's unmodified sources with sanitizers and "
                    "observe them through public interfaces and symbol interposition at link time.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks are driven by tools/check.py; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
