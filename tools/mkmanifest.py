#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from stages.py and properties.jsonl (run by hand when a check changes)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import STAGES, TECHNIQUES, NOTES, LEVELS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
               technique=TECHNIQUES[i], level=LEVELS[i][0], level_note=NOTES[i]) for i in ids if i in STAGES]
na = [dict(property=i, reason="its runtime monitor is not built yet") for i in ids if i not in STAGES]
m = dict(version=1, setup_cmd="python3 tools/selfcheck.py", checks=checks, not_applicable=na,
         notes="Every check compiles its harness in a scratch directory against /repo's working tree (header-only library) and removes it afterwards; no hooks in /repo are needed. Design and findings: DESIGN.md, known-findings.txt.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
