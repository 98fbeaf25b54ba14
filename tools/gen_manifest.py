#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and mc/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = checks.TECHNIQUE
out = {"version": 1, "setup_cmd": "python3 mc/run.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({"property": i, "quick_cmd": "python3 mc/run.py %s --tier quick" % i,
                              "thorough_cmd": "python3 mc/run.py %s --tier thorough" % i,
                              "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check not built yet")})
out["notes"] = ("Every check enumerates a finite, fully indexed space of executions of the real code (built from /repo's working tree in "
                "several configurations) and judges each against the reference model; DESIGN.md gives spaces, bounds and oracles.")
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
