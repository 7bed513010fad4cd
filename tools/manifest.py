#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(set(re.findall(r'register\("(C\d\d)"', "".join(open(os.path.join(here, "mc", f)).read() for f in os.listdir(os.path.join(here, "mc")) if f.endswith(".go")))))
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))}
TECH = {
 "default": "explicit-state model checking: exhaustive bounded enumeration of schema states by an edit alphabet, each state replayed through the real command and compared with an independent reference model",
 "C11": "explicit-state model checking: exhaustive bounded enumeration of (old,new) schema pairs; the emitted changelog is executed on a database model and the reached state compared with the target",
 "C12": "explicit-state model checking: exhaustive bounded enumeration of (old,new) schema pairs; the reported changes are applied to the model and compared with the target",
 "C13": "explicit-state model checking: exhaustive bounded enumeration of (old,new) schema pairs; the emitted SQL is executed on a database model and the reached state compared with the target",
 "C10": "explicit-state model checking: exhaustive bounded enumeration of schema states; the emitted changelog is executed on a database model",
 "C15": "stateless model checking of the implementation under a controlled runtime: systematic enumeration of hash-table iteration choices with a deviation bound",
 "C28": "exhaustive fault enumeration: every single file-system failure point of every command injected into the real implementation",
 "C27": "explicit-state model checking: exhaustive bounded enumeration of valid documents, and of every truncation and mutation of importer inputs, each run through the real command",
 "C29": "explicit-state model checking: exhaustive enumeration of command histories up to a depth on the real implementation, compared with isolated runs",
 "C30": "explicit-state model checking: exhaustive enumeration of option values up to a length on the real command, equivalent values compared",
 "C31": "explicit-state model checking: exhaustive bounded enumeration of importer inputs, each imported by the real command and its output given to every other command",
 "C26": "explicit-state model checking: exhaustive enumeration of option-source configurations on the real command",
}
LEVEL = {"C28": "fault_enumeration"}
NOTE = {
 "default": "Exhaustive within the bounds given in DESIGN.md (seeds, edit alphabet, depth); every explored state is executed on the real binary built from /repo.",
 "C15": "Exhaustive within the deviation bound over the map iterations executed by repository code for the seed inputs.",
 "C28": "Every single failing system-call occurrence of the listed kinds for the listed commands, and pairs (partial transfer then error); all pairs of faults in the thorough tier.",
}
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick bash /verif/check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {i}",
        "technique": TECH.get(i, TECH["default"]), "level": LEVEL.get(i, "model_checking"), "level_note": NOTE.get(i, NOTE["default"])})
for i in sorted(props):
    if i not in ids:
        m["not_applicable"].append({"property": i, "reason": "Check not built yet."})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(ids), "not claimed", len(m["not_applicable"]))
