#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))
C="crates/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P: assert len(x["title"])<=80, (x["id"], len(x["title"]))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out,"w") as f:
    for x in sorted(P,key=lambda x:x["id"]): f.write(json.dumps(x)+"\n")
