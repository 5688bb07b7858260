#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the list of claimed checks below and ../properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MC = "model_checking"
EXH = "Exhaustive within the bounds printed in the evidence; trusts the Starlark interpreter and the reference semantics in harness/ref (written from the language reference, bound to the code by comparing every explored graph). "
C = {}
def c(id, technique, note, level=MC):
    C[id] = (technique, level, note)
exec(open(os.path.join(root, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./run.sh setup", checks=[], not_applicable=[],
  notes="No hooks: the machinery drives the unmodified packages (harness binary linked against /repo) and the fizzbee binary built from /repo.")
for p in props:
    i = p["id"]
    if i in C:
        t, l, n = C[i]
        m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick ./run.sh check "+i, thorough_cmd="VERIF_TIER=thorough ./run.sh check "+i,
            evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "The check for this property is not built yet.")))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
