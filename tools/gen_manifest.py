"""writes MANIFEST.json from vt/props.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + "/vt"); sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NA = {i: "contracts for this property are not written yet" for i in ids}
NA.update(getattr(props, "NA", {}))
TECH = "contract-based deductive verification: WhyML extracted from the C++ source on every run, weakest preconditions by Why3, discharged by cvc5 and z3"
NOTE = ("All inputs, no bound: every obligation generated from /repo's current source for the functions under contract, their contracted callees and the lemma libraries is discharged. "
        "Trusted: clang's AST, the extraction vt/emit.py, the library and machine model vt/why/cpp.mlw, Why3 and the solvers. Real arithmetic is mathematical unless stated. "
        "A bounded run of the real library against an independent oracle accompanies the proof and supplies failing inputs; it is not counted as proof.")
m = {"version": 1, "setup_cmd": "python3 vt/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.P:
        m["checks"].append({"property": i, "quick_cmd": "python3 vt/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 vt/check.py " + i,
                            "technique": TECH, "level": "proof", "level_note": NOTE + (" " + props.P[i]["note"] if "note" in props.P[i] else "")})
    else: m["not_applicable"].append({"property": i, "reason": NA[i]})
m["notes"] = "No hooks: /repo is verified as it stands; contracts are kept in vt/contracts and bound to the functions by signature. See DESIGN.md."
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
