#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the registry (checks/*.py, not_applicable.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import checks  # noqa: E402
from not_applicable import NA  # noqa: E402
from sa.report import REGISTRY  # noqa: E402

checks.load_all()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    rows = []
    for pid, p in REGISTRY.items():
        rows.append({"id": pid, "title": p.title, "statement": p.statement, "quantifier": {"over": p.over, "text": p.quant},
                     "why_tests_cant": p.why, "anchors": {"files": p.files, "mechanism": [{"name": n, "where": w} for n, w in p.mechanism],
                                                          **({"state": p.state} if p.state else {})}})
    for n in NA:
        rows.append({k: n[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    for r in sorted(rows, key=lambda r: r["id"]):
        f.write(json.dumps(r) + "\n")
man = {"version": 1, "setup_cmd": "python3 selftest.py",
       "checks": [{"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "technique": p.technique, "level": "other", "level_note": p.note} for pid, p in sorted(REGISTRY.items())],
       "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
       "notes": "Pure static analysis of /repo's current source (Python ast); nothing of asyncz is imported or run. DESIGN.md describes the engine and each rule; KNOWN_FINDINGS.txt lists recorded and repaired defects."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
import design  # noqa: E402
design.write(REGISTRY, NA)
print(len(REGISTRY), "claimed,", len(NA), "not applicable")
