#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py."""
import json
import os

from checks_config import CHECKS, LEVEL_NOTE

here = os.path.dirname(os.path.abspath(__file__))
checks = []
for p, c in sorted(CHECKS.items()):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": LEVEL_NOTE[c["level"]] + " Trusts: " + " ".join(c["assumptions"]),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: yield points and lock replacements are inserted by a build overlay made from the working tree at check time. "
              "Genuine defects found are repaired in /repo (fix: commits) and listed in known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
