#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and suites.py."""
import json
from suites import SUITES, NOTES
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in SUITES:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    mods = []
    for s in SUITES[i]:
        m = s.get("cfg", s.get("module", ""))
        if m and m not in mods:
            mods.append(m)
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": "TLA+ specification (%s) explored by TLC; every behaviour replayed into / validated against the real code" % ", ".join(mods),
                   "level": "model_checking",
                   "level_note": NOTES.get(i, "Exhaustive within the stated constants on the specification, plus seeded random behaviours beyond them; each behaviour is executed by the real code and compared. Trusts TLC, the specification's reading of the formats, and the harness projection.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specification in spec/, Go replay harness in harness/, orchestrated by check.py from suites.py; known-findings lists repaired defects. No hooks in /repo: only the public API is driven."},
          open("MANIFEST.json", "w"), indent=1)
