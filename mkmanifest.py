#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os, importlib, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
checks, na = [], []
NOTES = {}
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    f = os.path.join(here, "checks", pid.lower() + ".py")
    if os.path.exists(f):
        mod = importlib.import_module("checks." + pid.lower())
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid,
                           thorough_cmd="python3 check.py %s thorough" % pid,
                           evidence_file="evidence/%s.json" % pid,
                           technique=getattr(mod, "TECHNIQUE", "TLA+ specification checked with TLC; its behaviours replayed step by step into the real code"),
                           level="model_checking",
                           level_note=(mod.__doc__ or "").strip()))
    else:
        na.append(dict(property=pid, reason="No specification and binding built for this property yet."))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
         notes="Specifications in specs/*.tla (TLA+, TLC). No hooks in /repo: the harnesses drive and observe the code through its own interfaces. `python3 check.py --replay FILE` re-runs a reported violation.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
