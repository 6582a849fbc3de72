#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED: id -> level note. Everything else in properties.jsonl is not applicable, with the reason below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the Go source (VC generation from SSA by /verif/gv, discharged by z3/cvc5)"
COMMON = " Trusted: the verifier /verif/gv, go/ssa, the SMT solvers, and the assumed contracts of library functions listed in the evidence. A bounded replay on the real code supplies failing inputs; it is not counted as proved."
CLAIMED = json.load(open(os.path.join(here, "tools", "claimed.json")))
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMED:
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": TECH, "level": "proof", "level_note": CLAIMED[p] + COMMON})
    else:
        na.append({"property": p, "reason": NA.get(p, "No contract within reach of the verifier decides it yet.")})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Contracts: contracts/*.spec; verifier: gv/; replay harnesses: replay/. No hooks in /repo; the commits there are fix: repairs recorded in known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
