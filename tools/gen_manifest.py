#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, NOT_APPLICABLE, TECHNIQUE  # noqa: E402

checks = []
for p in sorted(PLAN):
    pl = PLAN[p]
    checks.append(dict(
        property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p, technique=TECHNIQUE + ": " + pl["technique"], level=pl.get("level", "exploration"),
        level_note=pl["note"]))
m = dict(version=1, setup_cmd="python3 build.py", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes="No hooks in /repo: every seam (system calls, allocator, scheduling, random device) is a linker-level wrapper in /verif/sim. "
               "Known and repaired defects: known_findings.txt. Replay a recorded violation with 'python3 check.py --replay FILE'.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
