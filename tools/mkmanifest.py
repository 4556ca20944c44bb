#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every py/checks/cNN.py, the rest listed
as not (yet) decided."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "py", "checks", i.lower() + ".py")):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s" % i,
                       "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n["technique"], "level": n.get("level", "model_checking"),
                       "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none", "enable": "no hooks are used: the checks observe the public API, "
               "the command line and system calls of an unmodified build", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
