"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: symbolic execution of the real source against function contracts and loop invariants, obligations discharged by identity testing over GF(p) and z3"
NOTE = json.load(open(os.path.join(V, "tools/notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTE.get(p)
    if n and "level" in n:
        checks.append(dict(property=p, quick_cmd="python3 checks/run.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py %s --thorough" % p, technique=n.get("technique", TECH), level=n["level"], level_note=n["note"]))
    else: na.append(dict(property=p, reason=(n or {}).get("reason", "contracts for this property are not written yet")))
json.dump(dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=na, notes="see DESIGN.md"), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
