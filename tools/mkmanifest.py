#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/props.py and vp/notapplicable.py"""
import json, os, sys
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, B); sys.dont_write_bytecode = True
from vp import props
ids = [json.loads(l)["id"] for l in open(os.path.join(B, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.SPECS: continue
    s = props.SPECS[i]
    c = dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", technique=s["technique"], level=s["level"], level_note=s["level_note"])
    if s.get("theorems"): c["theorems"] = s["theorems"]
    checks.append(c)
na = [dict(property=i, reason=props.NOT_APPLICABLE[i]) for i in ids if i not in props.SPECS]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Checks build everything they need in a temporary directory; see DESIGN.md."), open(os.path.join(B, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
