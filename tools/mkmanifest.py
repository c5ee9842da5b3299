#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry in checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    bounds = "; ".join("%s: %s" % (u["name"], u.get("bounds", "")) for u in c["units"])
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "symbolic execution of the real code's LLVM IR with z3 (own executor), counterexamples replayed natively",
                   "level": "model_checking",
                   "level_note": "Every path and every value within the bounds, outside of them nothing is claimed. " + bounds + (". Assumes: " + "; ".join(c["assumptions"]) if c["assumptions"] else "")})
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C engine B=/verif/build", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
