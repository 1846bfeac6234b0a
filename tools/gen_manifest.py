#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the job table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from jobs import JOBS, NOTES  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in JOBS:
        na.append({"property": i, "reason": "its part of the specification is not bound to the code yet"})
        continue
    mods = []
    for j in JOBS[i]:
        for m in [x["module"] for x in j.get("models", [])] + (list(j["modules"].values()) if "modules" in j else [j["module"]]):
            if m not in mods:
                mods.append(m)
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i,
        "technique": "TLA+ specification checked with TLC, bound by trace validation and replay of TLC-generated behaviours (" + ", ".join(mods) + ")",
        "level": "model_checking",
        "level_note": NOTES.get(i, "Exhaustive on the bounded model; every recorded execution of the real code (generated and TLC-produced "
                      "inputs) is decided by the specification. Trusts TLC, the recording driver and the public-API projection; "
                      "code is observed on the executed inputs only."),
    })
out = {"version": 1,
       "setup_cmd": "python3 -c 'import os,sys; sys.exit(not (os.path.exists(\"check.py\") and os.path.exists(\"/opt/veriftools/tla/tla2tools.jar\")))'",
       "checks": checks, "not_applicable": na,
       "notes": "TLA+/TLC; specification in spec/, driver (public API only, no hooks) in driver/, runner check.py, job table tools/jobs.py."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
