#!/usr/bin/env python3
"""writes MANIFEST.json from vt/meta.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vt.meta import CHECKS
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
    "notes": "No hooks in /repo: instrumentation is compiler sanitizers, an LD_PRELOAD shim and monitors in the harness. /repo carries only fix: commits."}
for p in sorted(CHECKS):
    k = CHECKS[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                        "technique": k["technique"], "level": k["level"], "level_note": k["note"]})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
