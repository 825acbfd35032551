"""Write MANIFEST.json from the plan."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOTE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, d in sorted(PLAN.items()):
    checks.append(dict(property=p, quick_cmd="python3 tool/check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 tool/check.py " + p,
                       evidence_file="evidence/%s.json" % p, technique=d["technique"], level=d["level"], level_note=d["note"]))
m = dict(version=1, setup_cmd="python3 tool/setup.py", checks=checks, not_applicable=[], notes=NOTE)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
