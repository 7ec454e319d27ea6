#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
from checks.registry import CHECKS
from checks.describe import TECHNIQUE, NOTE, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"python3 run.py {p} --thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": TECHNIQUE[p], "level": "exploration",
                 "level_note": NOTE[p]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "the check is still being built")}
                        for p in props if p not in CHECKS],
     "notes": "No hooks in /repo are needed: all checks use the public interface. Every check builds from /repo's working tree (run.py)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
