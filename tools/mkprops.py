#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the anchors stay easy to edit)."""
import json, os
HM = "containers/cliffMap/hashMap.hpp"
PE = "include/persistence.hpp"
MK = "include/marking.hpp"
UCF = "containers/ucfMap.hpp"
KC = "include/KCAS/pmwcas.hpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_body.py")).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
