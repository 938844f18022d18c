#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and profiles.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from profiles import PROFILES
from gen_technique import TECH, NOTE
checks = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                   "technique": TECH[p], "level": PROFILES[p]["level"], "level_note": NOTE[p]})
json.dump({"version": 1, "setup_cmd": "python3 vp_build.py asan dist gcc regen tsan plain", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo are used: the library is observed at its public interfaces (API, file interface, page images, allocation symbols renamed with objcopy). "
                    "Every check rebuilds its drivers from /repo's working tree (vp_build.py, cached by the content of the sources). Random choices derive from VERIF_SEED."}, open(V + "/MANIFEST.json", "w"), indent=1)
