#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, properties.jsonl, the registry and seeded/*/meta.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vp import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p.get("title", "")))
    if i not in registry.PROPS:
        out.append("Not claimed: %s\n" % registry.NOT_APPLICABLE.get(i, "no check has been built for it yet."))
        continue
    sp = registry.PROPS[i]
    out.append("Harness `harness/%s`, %d quick / %d thorough jobs. %s\n" % (sp["jobs"][0].harness,
               sum("quick" in j.tiers for j in sp["jobs"]), len(sp["jobs"]), sp.get("explanation", "")))
    if sp["assumptions"]:
        out.append("Assumptions and stubs: " + "; ".join(sp["assumptions"]) + ".\n")
    out.append("Bounds (outside them nothing is claimed):\n")
    seen, n = [], 0
    for j in sp["jobs"]:
        b = j.bound
        if len(seen) >= 8:
            n += 1
        elif b not in [s[1] for s in seen]:
            seen.append((j.name, b, "" if "quick" in j.tiers else " (thorough only)"))
    out += ["- `%s`: %s%s" % s for s in seen]
    if n:
        out.append("- and %d more jobs of the same kinds, see `vp/registry.py`" % n)
    out.append("")
seeds = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.append("- `%s` (%s): %s Needs: %s **%s**" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"], d.get("caught", "not run yet")))
t = open(os.path.join(V, "tools", "design.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds) or "None yet."))
