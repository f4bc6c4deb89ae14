#!/usr/bin/env python3
"""regenerates MANIFEST.json from analysis/registry.py"""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
import registry
NOTE = ("Static: holds for every abstract path of every listed entry point, i.e. all shapes, positions and sizes; trusts the driver, "
        "the abstract domain, the models of std and the invariant at entry (see DESIGN.md). No verdict counts as a violation.")
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in registry.PROPS:
        e = registry.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 analysis/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 analysis/check.py %s --tier thorough" % i,
                       "technique": e["technique"], "level": "other", "level_note": e["note"] or NOTE})
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "not built yet") if hasattr(registry, "NA") else "not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'analysis'); import build; build.driver()\"",
           "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
