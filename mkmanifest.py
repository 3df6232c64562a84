#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and what check.py can run."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
NOTES = {}
exec(open(os.path.join(here, "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PLAN:
        t, n = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": t,
            "level": "exploration",
            "level_note": n,
        })
    else:
        na.append({"property": i, "reason": "No check is built for it yet (the client half is in progress)."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "One Rust harness (harness/) with generators, reference models and a shrinking engine; check.py builds it against /repo and runs one property. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
