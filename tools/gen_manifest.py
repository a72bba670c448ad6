#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in PROPS:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py --property {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py --property {i}",
        technique=p.get("technique", "runtime monitoring: model-based online monitor + ASan/UBSan"), level=p["level"],
        level_note=p.get("note", "Held on every explored execution; assurance is bounded by the generated workload. Trusts the monitor, the compiler and the sanitizers.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="Checks build the harness of one property together with /repo/src in a temporary directory and run it in 8 parallel shards. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
