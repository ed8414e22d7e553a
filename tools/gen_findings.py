#!/usr/bin/env python3
"""Writes known_findings.json from findings_src.py, looking up the fix commits in /repo by subject."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
by = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
ns = {}
exec(open(os.path.join(here, "findings_src.py")).read(), ns)
out = []
for f in ns["FIXED"]:
    c = by["fix: " + f["fix"]]
    out.append({"property": f["property"], "id": f["id"], "sig": "", "status": "fixed", "what": f["what"],
                "record": f"fixed: property={f['property']} {c} {f['what']}", "input": f["input"]})
for f in ns["OPEN"]:
    out.append({"property": f["property"], "id": f["id"], "sig": f["sig"], "status": "known", "generated": f["generated"], "what": f["what"], "input": f["input"]})
ids = [f["id"] for f in out]
assert len(ids) == len(set(ids)), "duplicate ids"
json.dump({"findings": out}, open(os.path.join(here, "..", "known_findings.json"), "w"), indent=1, ensure_ascii=False)
print(len(out), "findings; unrecorded fixes:", [s for s in by if s.startswith("fix: ") and s[5:] not in {f["fix"] for f in ns["FIXED"]}])
