#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    src = f"{V}/harness/{i.lower()}.cpp"
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(src):
        bounds = [l.split("@bound", 1)[1].strip() for l in open(src) if "// @bound" in l]
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i} --tier thorough",
            "technique": "symbolic execution of the compiled C++ sources over a symbolic real scalar; obligations discharged by Z3 (polynomial normal forms with solver-certified lemmas), counterexamples replayed on the real double code",
            "level": "model_checking",
            "level_note": "All input values within the stated bounds are covered by solver verdicts (no sampling). Bounds: " + ("; ".join(bounds) if bounds else "see DESIGN.md")
            + ". Assumes exact real arithmetic instead of rounding, Eigen inverses by contract (M M^-1 = I), modelled mutex/queue/thread; trusts the engine in sx/ and Z3.",
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./driver/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: sources are compiled unmodified with a force-included prelude that replaces the scalar type. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
