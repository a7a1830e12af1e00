#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import REGISTRY
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REGISTRY:
        r = REGISTRY[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=r.get("technique", "TLA+ specification model checked with TLC; recorded executions of the real code under a controlled scheduler validated against it with TLC"),
                           level=r.get("level", "model_checking"),
                           level_note=r.get("note", "The specification is explored exhaustively for small constants; the code is bound to it by trace validation of seeded, scheduled executions (sampled, not exhaustive). ") + " Assumes: " + "; ".join(r.get("assumptions", []))))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)'", hooks=dict(guard="NONE", enable="no hooks are needed: the checks compile /repo's unchanged sources against stand-ins for score_baselibs and std synchronisation primitives", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
