#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vt.__main__ import registry
reg = registry()
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    if p in reg:
        c = reg[p]
        checks.append(dict(property=p, quick_cmd="./check %s" % p, thorough_cmd="./check %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
                           technique=getattr(c, "technique", "property-based testing: generated cases against an executable oracle, with shrinking"), level="exploration",
                           level_note=getattr(c, "level_note", "Held on every generated case of the run (counts in the evidence file); not a proof. Trusts the reference model in vt/lang.py and the executor's observation code; the repository is compiled with clang, AddressSanitizer and UndefinedBehaviorSanitizer against a pybind11 stand-in (C28 and C29: against the real pybind11, in an embedded Python).")))
m = dict(version=1, setup_cmd="./check setup", hooks=dict(guard="none", enable="no hooks were needed", source_commits=[]), checks=checks,
         not_applicable=[dict(property=p, reason="no check yet") for p in props if p not in reg],
         notes="Run a check with ./check <id>; ./check <id> --replay FILE decides one saved case again. VERIF_SEED picks the cases, VT_SCALE scales their number.")
if not m["hooks"]["source_commits"]:
    del m["hooks"]
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
