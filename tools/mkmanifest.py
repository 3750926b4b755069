#!/usr/bin/env python3
"""writes MANIFEST.json from the plans"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
root = plans.lib.ROOT
checks = []
for pid in sorted(plans.PLANS):
    p = plans.PLANS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": "TLA+ specification: TLC model checking and trace validation of the real code (%s)" % p["technique"],
        "level": "model_checking",
        "level_note": p["note"] + " Assumes: the recorded events are what the crate did; bounded exploration, "
                      "the exact numbers are in the evidence file.",
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the public API, the files and interposed C library calls only. "
              "Reproduce a violation with: python3 check.py <id> --replay <path>."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
