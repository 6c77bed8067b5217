#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of Go SSA + SMT (own engine; z3/cvc5 portfolio), counterexamples replayed natively"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, claimed=True, reason=None, observe=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: p["anchors"]["observe_at"] = observe
    P.append((p, note, claimed, reason))
exec(open(os.path.join(here, "tools", "props.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, *_ in P: f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p, note, claimed, reason in P:
    if claimed:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": TECH, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": reason})
m["notes"] = "See DESIGN.md. known_findings.json lists the recorded finding and the repaired defects."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
