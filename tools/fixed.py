#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect."""
import json, os, sys
p, c, w = sys.argv[1:4]
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.jsonl")
open(f, "a").write(json.dumps({"property": p, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
