"""Writes /verif/MANIFEST.json: one check per harness module that exists (run by hand)."""
import importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo")
NA = {}
NOTE = ("Bounded: every path of the real functions within the stated bounds (see evidence and DESIGN.md) is executed "
        "symbolically and each assertion discharged by z3 over all values of the symbolic inputs. Floating point is "
        "modelled by exact reals unless stated. Trusts CPython for the concrete parts, the symx encoding of numbers and "
        "strings (cross-checked by replaying solver models on the real code each run) and z3.")
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", pid.lower() + ".py")):
        src = open(os.path.join(ROOT, "harness", pid.lower() + ".py")).read()
        mod = {}
        extra = ""
        for ln in src.splitlines():
            if ln.startswith("LEVEL_NOTE"):
                exec(ln, mod)
                extra = " " + mod["LEVEL_NOTE"]
        checks.append(dict(
            property=pid,
            quick_cmd="./check.py %s --tier quick" % pid,
            thorough_cmd="./check.py %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique="symbolic execution of the repository's Python code, assertions decided by z3, counterexamples replayed",
            level="model_checking",
            level_note=NOTE + extra))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo. The engine is /verif/symx, the harnesses are /verif/harness. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
