#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the query tables."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from queries import PROPERTIES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPERTIES:
        s = PROPERTIES[i]
        checks.append({"property": i, "quick_cmd": "python3 lib/check.py %s" % i,
                       "thorough_cmd": "python3 lib/check.py %s --tier thorough" % i,
                       "technique": "bounded symbolic execution of the real C sources with CBMC (SAT), counterexamples replayed natively",
                       "level": "model_checking", "level_note": s["note"], "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: system calls are replaced by preprocessor renames on the scratch copy of the sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
