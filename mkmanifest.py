#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run after changing checks.py)."""
import json, os, subprocess
from checks import CHECKS, NOT_APPLICABLE, HOOK_COMMITS

HERE = os.path.dirname(os.path.abspath(__file__))
checks = []
for p, c in sorted(CHECKS.items()):
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                       technique="deterministic simulation with fault injection", level=c["level"], level_note=c.get("note") or c["rule"]))
m = dict(version=1, setup_cmd="python3 check.py --build",
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes="No hooks in /repo: every seam is the link step (system calls, clock, randomness, allocation). See DESIGN.md.")
if HOOK_COMMITS:
    m["hooks"] = dict(guard="S5_SIM", enable="-DS5_SIM", source_commits=HOOK_COMMITS)
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
