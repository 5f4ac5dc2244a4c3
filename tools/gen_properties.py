#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

NOBUILD = ("The upstream tests that touch this need dynamic-graph and are not among the tests that run here; "
           "where they exist they check one or two hand-picked values. ")

exec(open(os.path.join(HERE, "properties_table.py")).read())

out = os.path.join(HERE, "..", "properties.jsonl")
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids)), "duplicate id"
with open(out, "w") as f:
    for p in P:
        for x in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
