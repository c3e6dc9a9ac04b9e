#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS
props = [json.loads(l) for l in open("properties.jsonl")]
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i not in PROPS:
        continue
    s = PROPS[i]
    k = "kani" in s["engines"]; v = "symval" in s["engines"]
    tech = " + ".join((["Kani/CBMC bounded model checking of the compiled MIR (SAT)"] if k else []) +
                      (["symbolic execution of the real generic code over a symbolic number type, Z3 over real arithmetic"] if v else []))
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                   "technique": tech, "level": "model_checking",
                   "level_note": "Holds for every input within: " + s["bounds"] + ". Outside: " + (s["outside"] or "nothing further") +
                                 ". Trusts: " + "; ".join(s["assumptions"] + ["the solver and the translation to it"]) + "."})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in PROPS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks use public interfaces only."}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
