#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py (what is claimed) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = checks.TECHNIQUE
out = {"version": 1, "setup_cmd": "bin/setup",
       "checks": [], "not_applicable": [],
       "notes": "One TLA+ specification (spec/), checked by TLC and bound to the code by replaying generated "
                "cases and by validating recorded traces. No hooks in /repo are needed: the driver is compiled into "
                "/repo's modules with go build -overlay and uses exported API only."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, note = TECH[i]
        out["checks"].append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i,
                              "thorough_cmd": "bin/check %s --tier thorough" % i,
                              "technique": t, "level": "model_checking", "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
