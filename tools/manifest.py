#!/usr/bin/env python3
"""Regenerate MANIFEST.json from sa/registry.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from sa.registry import CHECKS, NOT_APPLICABLE, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        m = CHECKS[i][0]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}",
                           thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=TECHNIQUE.get(i) or TECHNIQUE.get(m) or TECHNIQUE["*"], level="other",
                           level_note=NOTE.get(i) or NOTE.get(m) or NOTE["*"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; assert sys.version_info >= (3, 10)'",
               checks=checks, not_applicable=na), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
