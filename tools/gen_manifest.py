#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from tools/checks.py and tools/not_applicable.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402
from not_applicable import NOT_APPLICABLE  # noqa: E402

m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 run_check.py %s quick" % p,
        "thorough_cmd": "python3 run_check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    } for p, c in CHECKS.items()],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
    "notes": "No hooks in /repo: every seam is a symbol the simulator interposes at link time, plus the compiler's memory "
             "access instrumentation. See DESIGN.md.",
}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
