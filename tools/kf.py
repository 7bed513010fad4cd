#!/usr/bin/env python3
"""Rewrites known_findings.json: the open findings (tools/open_findings.json) and one entry per fix commit (tools/fixed.txt)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = json.load(open(os.path.join(here, "tools", "open_findings.json")))
for l in open(os.path.join(here, "tools", "fixed.txt")):
    l = l.strip()
    if not l: continue
    prop, commit, what = l.split(" ", 2)
    out.append({"property": prop, "sig": "", "what": what, "fixed": f"fixed: property={prop} {commit} {what}"})
json.dump(out, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
