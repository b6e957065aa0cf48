#!/usr/bin/env python3
"""Writes MANIFEST.json from the job table and the property list."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
import jobs as J

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.JOBS:
        checks.append(
            {
                "property": i,
                "quick_cmd": "python3 check.py " + i,
                "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                "technique": "symbolic execution of the crate's LLVM IR with z3, counterexamples replayed natively",
                "level": "model_checking",
                "level_note": "Bounded: " + J.BOUNDS[i] + ". " + J.NOTES.get(i, "") + "Assumes: " + "; ".join(J.ASSUMES.get(i, []) + J.COMMON) + ".",
            }
        )
    else:
        na.append({"property": i, "reason": J.NA.get(i, "no check yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the harness only uses the public interface"},
    "checks": checks,
    "not_applicable": na,
    "notes": "Each check rebuilds the crate from /repo to LLVM IR, executes it symbolically and replays models natively (qemu for the Arm targets). See DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
