#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a harness, not_applicable for the others."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    h = V + "/harness/%s.cc" % i
    if os.path.exists(h) and i not in NA:
        t = open(h).read()
        b = " ".join(re.findall(r"^// bound: (.*)$", t, re.M))
        o = " ".join(re.findall(r"^// outside: (.*)$", t, re.M))
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled LLVM IR of the real code (own pass and runtime); z3 bit-vector / linear / nonlinear real queries decide every path and assertion",
            "level": "model_checking",
            "level_note": "Every path and assertion decided for all values within the bounds. Bounds: " + b + (". Outside: " + o if o else "") +
                          ". Doubles are interpreted as reals with stated tolerances; equality of distinct real expressions is taken as false; trusts clang 18, the engine and z3. Solver models are replayed on the same binary in machine arithmetic."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "check.py builds the engine and the instrumented sources of /repo into the git-ignored /verif/build on every run (incremental where nothing changed). No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
