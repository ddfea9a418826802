#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl (run: python3 tools/manifest.py)."""
import json
import os

import checks

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
ids = [p["id"] for p in props]
assert set(checks.CHECKS) <= set(ids), set(checks.CHECKS) - set(ids)
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check executes the LLVM IR of the crates in /repo (built from its working tree on every run) symbolically "
             "with symx and decides branch feasibility and assertions with Z3; counterexamples are replayed natively before they are reported.",
}
for i in ids:
    c = checks.CHECKS.get(i)
    if c:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i} --tier quick",
            "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
            "technique": "symbolic execution of the compiled LLVM IR with SMT (Z3), all paths within stated bounds",
            "level": "model_checking",
            "level_note": f"Holds for every value within the bounds: {c['bounds']}. Outside: {c.get('outside', 'everything larger')}. "
                          "Trusted: rustc's IR, symx and Z3 (sample paths and counterexamples are re-run natively)."
                          + ((" Assumes: " + "; ".join(c["assumptions"]) + ".") if c.get("assumptions") else ""),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check built yet for this property")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
