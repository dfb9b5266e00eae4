#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vp import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        sp = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check %s" % i,
                           thorough_cmd="VERIF_TIER=thorough ./check %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=sp.get("technique") or "bounded model checking of the real C code (CBMC, SAT-decided) with native replay",
                           level="other",
                           level_note=sp.get("note") or "Solver verdict over all values within stated bounds; bounds and stubs are listed in DESIGN.md and in the evidence."))
    elif i in registry.NOT_APPLICABLE:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE[i]))
    else:
        na.append(dict(property=i, reason="No check has been built for it yet."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
