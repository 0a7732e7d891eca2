#!/usr/bin/env python3
"""writes MANIFEST.json from bin/plan.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from plan import PLAN, NOT_APPLICABLE
checks = [{
    "property": p, "quick_cmd": "python3 bin/check " + p, "thorough_cmd": "env VERIF_TIER=thorough python3 bin/check " + p,
    "evidence_file": "evidence/%s.json" % p,
    "technique": "deterministic simulation with fault injection: seeded search over schedules, crashes and faults of the real library under a simulated OS",
    "level": "exploration",
    "level_note": "Seeded random search, no exhaustiveness. Explores: " + d["what"] + ". Trusts the simulated OS (sequentially consistent memory, "
                  "POSIX promises of fsync/msync/locks) and the reference model of the harness; see DESIGN.md.",
} for p, d in sorted(PLAN.items())]
na = dict(NOT_APPLICABLE)
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i not in PLAN and i not in na:
        na[i] = "check of this property is still being triaged, not claimed yet"
json.dump({"version": 1, "setup_cmd": "python3 bin/build.py", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items())],
           "notes": "No hooks in /repo: calls of the library to the system are redirected by renaming symbols of its object file (objcopy), "
                    "instrumentation of memory accesses by the compiler gives preemption points. Known findings: known-findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
