#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the suites registered for them."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import suites
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "All specifications are TLA+ (spec/), checked with TLC; run.py drives TLC, builds the harness from /repo and replays/validates. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i not in suites.PROPS:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "technique": suites.TECHNIQUE.get(i, "TLA+ specification checked with TLC; its behaviours replayed on the real client"),
        "level": "model_checking",
        "level_note": suites.NOTE[i],
    })
if hasattr(suites, "HOOKS"):
    m["hooks"] = suites.HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
