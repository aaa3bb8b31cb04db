#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and checks/registry.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here + "/tools", here + "/checks", here + "/lib"]
sys.dont_write_bytecode = True
import props, registry
with open(here + "/properties.jsonl", "w") as f:
    for p in props.P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.P:
    i = p["id"]
    if i in registry.CHECKS:
        note = registry.NOTES.get(i, "")
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i,
            thorough_cmd="VERIF_TIER=thorough ./check " + i,
            technique="TLA+ specification checked with TLC; TLC trace validation of recorded runs of the real code",
            level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=getattr(registry, "NA", {}).get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)'",
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: the harnesses use the public functions and state of the code", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
