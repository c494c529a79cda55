#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan and the list of properties."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import plan, notes
root = os.path.dirname(here)
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API, recorded messages and the programs' output", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": notes.NOTES}
for p in props:
    if p in plan.PLAN:
        m["checks"].append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p,
                            "technique": notes.TECH[p][0], "level": plan.PLAN[p].get("level", "model_checking"), "level_note": notes.TECH[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": notes.NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
