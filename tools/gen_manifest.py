#!/usr/bin/env python3
"""Regenerates MANIFEST.json from contracts/meta.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from contracts.meta import META, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META:
        m = META[i]
        note = m.get("note") or "Every obligation generated from the current source is discharged for all inputs; reals for floats."
        note += " Assumes: " + "; ".join(m["assumptions"]) + "."
        if m["trusted"]:
            note += " Trusted: " + "; ".join(m["trusted"]) + "."
        if m["bounded"]:
            note += " Bounded, not proved: " + "; ".join(m["bounded"]) + "."
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification: VCs from the Python AST of /repo, discharged by normaliser/z3/cvc5; concrete replay of failures",
                       "level": m["level"], "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: contracts live in /verif/contracts and are keyed by function; the verified text is /repo/mpopt/mpopt.py itself, parsed on every run."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
