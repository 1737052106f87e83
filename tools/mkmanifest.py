#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when /verif/harness/<id>*.cpp exists."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(H, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(H, "harness", i + "*.cpp")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="explicit-state exploration of the real code: exhaustive bounded enumeration of choice sequences (stateless model checking) against a reference model",
                           level="model_checking", level_note=LEVEL.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none", enable="no hook is needed: the checks compile the unmodified sources of /repo", source_commits=[]),
         checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
