#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/scripts/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                       "technique": "contract-based deductive verification (govc: obligations from the real Go SSA, z3/cvc5); drawn-case replay on the real code",
                       "level": "proof", "level_note": CLAIMED[i]})
    elif i in BOUNDED:
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                       "technique": "bounded stand-in for contracts: drawn cases on the real code against the property's own oracle" + BOUNDED[i][0],
                       "level": "exploration", "level_note": BOUNDED[i][1]})
    else:
        na.append({"property": i, "reason": NOT.get(i, "not yet under contract")})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
           "notes": "Contracts are in contracts/*.spec, the verifier in tool/, the drawn cases in harness/. No hooks in /repo; fixes are listed in known-findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
