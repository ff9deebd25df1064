#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and jobs.py."""
import json
import os
import sys

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, top)
sys.dont_write_bytecode = True
from jobs import CHECKS, NOT_APPLICABLE  # noqa: E402

NOTE = ("Exhaustive over all input values within the stated bounds: %s "
        "Trusts the executor's reading of LLVM IR (cross-checked by native runs of path models), "
        "z3, and the reference models in the harness.")
checks, na = [], []
for line in open(os.path.join(top, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CHECKS:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the compiled library's LLVM IR with z3, "
                         "against an independent reference",
            "level": "model_checking",
            "level_note": NOTE % CHECKS[p]["bounds"],
        })
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "No check has been built yet.")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "check.py builds the executor (engine/), compiles harness/ with the library at /repo to "
             "LLVM IR and runs every job of jobs.py; exit 2 means no answer.",
}
with open(os.path.join(top, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
