#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the rules that exist"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {
    "C35": "Quantifies over the unbounded orbit of one particular 219-entry table from one configuration: only running the automaton settles which neighbourhoods occur and what they grow into; no static argument short of executing it is in reach.",
    "C36": "Convergence and tour quality of a stiff system of floating-point differential equations with random initial values: a numeric, probabilistic outcome that no static analysis of the source bounds.",
    "C37": "Convergence depends on the numeric content and number of the training patterns (it fails beyond the net's capacity): a statement about runtime values. The structural part (weights and threshold) is C30.",
}
NOTE = ("Static: decides from the syntax trees of /repo's package, never importing or running it. An obligation is discharged when "
        "the value or effect found in the source has the normal form the property requires; it is reported as a violation only when "
        "the forms differ and a valuation of their free leaves separates them (or an effect that the rule forbids is reachable). "
        "Constructs the analysis cannot follow leave an obligation undecided, which is shown in the evidence and is not reported. "
        "Trusts the models of the Python/NumPy/NetworkX operations used (sa/models.py) and the annotated interface of user callbacks.")


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(V, "rules", pid.lower() + ".py")):
            m = importlib.import_module("rules." + pid.lower())
            checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                           "thorough_cmd": "python3 check.py %s --thorough" % pid,
                           "evidence_file": "evidence/%s.json" % pid,
                           "technique": "static analysis: " + m.TECHNIQUE, "level": "other",
                           "level_note": getattr(m, "LEVEL_NOTE", "") + NOTE})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "No check for it yet.")})
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa rules check.py", "checks": checks, "not_applicable": na,
               "notes": "See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
