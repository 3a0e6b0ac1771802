#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")) and i in NOTES["checks"]:
        n = NOTES["checks"][i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES["na"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the checks observe gosec through its command line, its public Go API and the environment it runs in", "source_commits": []},
     "notes": "See DESIGN.md. Deciding method: TLA+ modules in spec/ checked by TLC and bound to the code by replaying TLC-enumerated cases and recorded observations."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
