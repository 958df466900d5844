"""writes /verif/MANIFEST.json (run by hand)"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
sys.path.insert(0, R)
TECH_M = "deductive verification: real rules executed symbolically, postconditions (laws) discharged by normal form, z3, cvc5"
NOTE_M = ("Every law of the property follows from the constraints the real code builds and every constraint follows from the laws, "
          "for all 72 module combinations, any period, region and parameter value. Trusts: the rewriting engine, assumed contracts of "
          "pyomo/numpy, real arithmetic for floats. A bounded replay on concrete models runs alongside and is not counted.")
claimed = {f"M{i:02d}": (TECH_M, "proof", NOTE_M) for i in range(1, 17)}
claimed["M17"] = ("deductive verification: contracts of the smooth functions, inequalities discharged by z3/cvc5 over atan axioms", "proof",
                  "All real arguments, scales and caps, all argument types the code distinguishes; trusts atan axioms, mean value theorem, real arithmetic.")
claimed["M18"] = ("deductive verification: contracts of create_abstract_model, add_constraint and the constraint classes", "proof",
                  "All 72 module combinations and arbitrary unknown names; trusts the assumed contract of pyomo components.")
extra = os.path.join(R, "tools", "manifest_extra.json")
na = {}
if os.path.exists(extra):
    d = json.load(open(extra))
    claimed.update({k: tuple(v) for k, v in d["claimed"].items()})
    na = d["na"]
checks = []
for i in ids:
    if i in claimed:
        t, l, n = claimed[i]
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --thorough",
                           technique=t, level=l, level_note=n))
    else:
        na.setdefault(i, "check not built yet")
na = [dict(property=k, reason=v) for k, v in na.items() if k not in claimed]
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, yaml'", checks=checks, not_applicable=na,
               notes="see DESIGN.md; known findings in KNOWN_FINDINGS.txt"), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
