#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the registry (run by hand after adding a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import registry
from manifest_text import TECHNIQUE, NOTE, NOT_APPLICABLE, NOTES
checks = []
for pid in sorted(registry.CHECKS):
    checks.append({"property": pid,
                   "quick_cmd": "python3 check.py %s" % pid,
                   "thorough_cmd": "python3 check.py %s --thorough" % pid,
                   "technique": TECHNIQUE[pid], "level": "other", "level_note": NOTE[pid]})
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [{"property": p, "reason": NOT_APPLICABLE[p]} for p in ids if p not in registry.CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
           "not_applicable": na, "notes": NOTES}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not applicable")
