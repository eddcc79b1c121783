"""Regenerates MANIFEST.json from sim/meta.py (run by hand)."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from sim.meta import META, NOT_APPLICABLE, TECHNIQUE  # noqa: E402

m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check {p} --tier quick",
            "thorough_cmd": f"./check {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECHNIQUE[p],
            "level": META[p]["level"],
            "level_note": META[p]["note"],
        }
        for p in sorted(META)
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
    "notes": "No hooks in /repo: every seam is reached from outside (sys.monitoring, audit events, foreign objects passed as arguments, interposed file primitives, process environment). Replay a reported violation with ./check <ID> --replay <file>.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
