#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (claimed properties; the rest is not_applicable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
exec(open(os.path.join(V, "tools", "claims.py")).read())
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        level, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="contract-based deductive verification of the Go code (govc: contracts + weakest preconditions over go/ssa, z3/cvc5)",
                           level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts not finished yet")))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", hooks=dict(guard="verif", enable="no hooks are needed: contracts are kept beside the code in /verif/contracts and harnesses go in with go test -overlay", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="Each check proves the contracts of its property on /repo's current source (govc) and runs a bounded replay harness on the real code, which supplies the failing input when an obligation fails. Known findings: known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
