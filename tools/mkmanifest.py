#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import PROPS, NA, NOTE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
        technique="Verus contracts woven with the functions of the current source; bounded stand-in for the rest" if p["units"] else "bounded stand-in (contracts not within reach)",
        level=p["level"], level_note=p.get("note", "") + NOTE))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, "not claimed yet")) for i in ids if i not in PROPS],
    notes="No hooks in /repo are needed: functions are extracted from /repo/src on every run. Known and repaired defects: known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
