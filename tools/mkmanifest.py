#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed properties (tools/claims.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from claims import CLAIMS, NA
props = [json.loads(l)['id'] for l in open(os.path.join(here, '../properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMS:
        note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
            "technique": "symbolic execution of the Go SSA of the real code, obligations decided by SMT (z3, cvc5), counterexamples replayed natively",
            "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "./run.sh setup", "hooks": {"guard": "none", "enable": "no hooks in /repo: harnesses enter through go build overlays", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, '../MANIFEST.json'), 'w'), indent=1)
