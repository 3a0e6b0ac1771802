#!/usr/bin/env python3
"""Writes the sections of DESIGN.md after 'Method' from the properties, notes, known findings, planted bugs and design_tail.md."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
notes = json.load(open(H + "/tools/notes.json"))
known = [json.loads(l) for l in open(H + "/known-findings.jsonl") if l.strip()]
s = open(H + "/DESIGN.md").read()
head = s[:s.index("## Properties")]
out = [head + "## Properties\n"]
for p in props:
    n = notes["checks"].get(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("%s.\n\nBounds and assumptions: %s\n\nTests cannot settle it: %s.\n" % (n["technique"].rstrip("."), n["note"], p["why_tests_cant"].rstrip(".")) if n else "Not claimed.\n")
out.append(open(H + "/tools/design_tail.md").read())
out.append("## Defects found and repaired\n\nEach was shown on the real code by the check of its property, and is reported again if it returns.\n\n")
for k in known:
    if k.get("status") == "fixed":
        out[-1] += "- %s `%s`: %s\n" % (k["property"], k["commit"], k["what"].split(k["commit"], 1)[1].strip())
rest = [k for k in known if k.get("status") != "fixed"]
out[-1] += "\nRecorded, not repaired: %s\n" % ("; ".join(k["what"] for k in rest) if rest else "none.")
out.append("## Planted bugs\n\nEvery change below is caught by the quick check of its property (`tools/seedtest.py`). Those marked * were missed at first; the check was strengthened.\n\n| Bug | Property | Needs | Breaks |\n|---|---|---|---|\n")
first = set(open(H + "/tools/missed_first.txt").read().split())
for b in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, b)))
    out[-1] += "| %s%s | %s | %s | %s |\n" % (b, "*" if b in first else "", m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))
open(H + "/DESIGN.md", "w").write("\n".join(out))
