"""Collect wall time, paths and queries of the last runs from evidence/ into costs.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, "tools", "costs.json")
costs = json.load(open(path)) if os.path.exists(path) else {}
for f in sorted(glob.glob(os.path.join(ROOT, "evidence", "*.json"))):
    e = json.load(open(f))
    c = e.get("coverage", {})
    if e.get("tier") not in (None, "quick"):
        continue
    costs[e["property"]] = {"wall": round(e["wall_s"]), "paths": c.get("states"),
                            "queries": c.get("solver_queries")}
with open(path, "w") as f:
    json.dump({k: costs[k] for k in sorted(costs)}, f, indent=1)
    f.write("\n")
