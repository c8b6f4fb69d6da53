#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification (govc: weakest preconditions over go/ssa of the real code, SMT back ends)"
CLAIMED = {
 "C02": "", "C03": "", "C04": "", "C06": "", "C09": "", "C13": "",
}
NOT = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
BASE = ("Every obligation generated from /repo's current source for the functions under contract is discharged by an SMT solver "
        "for all inputs and all iterations; trusted: govc's semantics of go/ssa and its models of the standard library (listed in the evidence). "
        "An executable oracle on the real code runs next to it as a labelled bounded stand-in (never counted as proved). ")
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T, "level": "proof",
                       "level_note": BASE + CLAIMED[i]})
    else:
        na.append({"property": i, "reason": NOT.get(i, "contracts not written yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
