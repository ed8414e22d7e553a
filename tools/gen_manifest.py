#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and manifest_src.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from manifest_src import CHECKS, REASON
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}", technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=REASON))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
