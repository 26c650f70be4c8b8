#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl") if l.strip()]
TECH = "symbolic execution of the compiler's IR of the real code + SMT (z3), bounded; counterexamples replayed natively"
NOTE = {
    "C01": "Decides equality of each compiled compression function with the specified function for every input (no loops left symbolic, so no bound). Trusts the IR executor, the term normaliser (checked against z3 by differential certification where stated), z3, and LLVM IR as the meaning of the source.",
    "C02": "All inputs, keys, offsets, steps and flags, for the listed counts of inputs and blocks. Outside: other counts and block numbers.",
    "C03": "As C01 and C02, for the 64-bit variant.",
}
NA = {}
exec(open(R + "/tools/claims.py").read()) if os.path.exists(R + "/tools/claims.py") else None
checks = []
for i in ids:
    if i in NOTE:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": globals().get("TECHS", {}).get(i, TECH),
            "level": "other",
            "level_note": NOTE[i],
        })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in NOTE],
}
if "HOOKS" in globals():
    m["hooks"] = HOOKS
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
