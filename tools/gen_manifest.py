#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from plan import PROPS, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
    "D01": "Whether headers compile alone and in any order is a fact about translation, not a space of executions; there is no state to enumerate (the missing includes found while reading were repaired).",
    "D04": "Other platforms and compilers (32-bit, MSVC) are not available in this sandbox, so their executions cannot be explored; the x86-64 layout is C26.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUE[i], "level": "model_checking", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks replace the allocator at link time and drive the public interface. Replay an artefact with: python3 run.py <id> --replay <file>."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
