#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The table below is the single source."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, hook=None):
    a = {"files": files, "mechanism": mech}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_table.py")).read())

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
