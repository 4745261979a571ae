#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks present in pv/checks (run to regenerate it).
import json, os, sys, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
from pv import core
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    if os.path.exists("%s/pv/checks/%s.py" % (V, p["id"].lower())):
        c = core.load(p["id"])
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh %s --tier thorough" % p["id"],
                       "technique": c.technique, "level": "exploration", "level_note": c.level_note})
    else:
        na.append({"property": p["id"], "reason": "not claimed (yet): the generator and oracle described in DESIGN.md for this property are not built"})
m = {"version": 1, "setup_cmd": "python3 -m pv.build", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
