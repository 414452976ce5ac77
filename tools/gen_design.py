"""Writes /verif/DESIGN.md: tools/design_head.md, the properties, the seeded bugs (run by hand)."""
import glob, importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo")
from tools.design_notes import NOTES, TAIL

out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
out.append("\n## Property by property\n")
out.append("*Oracle*: what the code is compared with. *Beyond tests*: why no sample settles it. "
           "Quick times are on 8 cores.\n")
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    mod = importlib.import_module("harness." + pid.lower())
    q, t = mod.scenarios("quick"), mod.scenarios("thorough")
    out.append(f"### {pid} {p['title']}\n")
    oracle, beyond = NOTES[pid]
    out.append(f"*Oracle*: {oracle}  \n*Beyond tests*: {beyond}  ")
    names = [s.name for s in q]
    extra = [s.name for s in t if s.name not in names]
    shown = ", ".join(names if len(names) <= 14 else names[:14] + [f"... ({len(names)})"])
    out.append(f"*Scenarios*: {shown}" + (f"; thorough adds {', '.join(extra[:10])}" if extra else "") + "  ")
    out.append("*Bounds*: " + "; ".join(mod.BOUNDS) + ".  ")
    if mod.OUTSIDE:
        out.append("*Outside*: " + "; ".join(mod.OUTSIDE) + ".  ")
    if mod.ASSUME:
        out.append("*Assumed*: " + "; ".join(mod.ASSUME) + ".  ")
    ev = os.path.join(ROOT, "tools", "costs.json")
    costs = json.load(open(ev)) if os.path.exists(ev) else {}
    if pid in costs:
        c = costs[pid]
        out.append(f"*Cost*: {c['wall']} s, {c['paths']} paths, {c['queries']} queries (quick).")
    out.append("")
out.append("## Seeded bugs\n")
out.append("Each is a folder of `seeded/` (patch, demonstration, meta.json). All were written from "
           "the text of the property and the code and are confirmed to pass the repository's tests "
           "and to fail their own demonstration.\n")
out.append("| bug | needs | caught by |\n|---|---|---|")
res = os.path.join(ROOT, "tools", "caught.json")
caught = json.load(open(res)) if os.path.exists(res) else {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    k = os.path.basename(d)
    out.append(f"| {k} | {m['needs']} | {caught.get(k, m['property'])} |")
out.append("\n" + TAIL)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
