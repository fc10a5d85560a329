#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contracts that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = {
 "C27": "a bound on accumulated IEEE-754 rounding error over unboundedly long runs of numpy code: the verifier treats machine "
        "numbers as real numbers and no floating-point-exact deductive verifier for numpy is available here",
}
NOTE = ("every path of the real functions (executed from /repo's current source by a symbolic interpreter, callees with their own "
        "contract replaced by it) yields named obligations discharged for all inputs by polynomial normal forms, z3 and cvc5; "
        "numbers are real numbers, numpy operations are trusted to match the model in vc/shim.py (cross-checked on samples); "
        "obligations the solvers leave open are reported as not proved in the evidence and stand only on the bounded concrete campaign")
EXTRA = {"C32": "; any window, order, derivative and number of samples, against the contracts of pinv (least squares) and convolve; "
                "for windows of 3 to 9 samples also with the exact weights instead of the contract of pinv"}
EXTRA["C33"] = "; the element found, the average and the interpolation are proved for any number of samples against the contracts of argmin, convolve and scipy's spline of degree 1"
LEVEL = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="%s -m vc.check %s --tier quick" % (PY, i),
                           thorough_cmd="%s -m vc.check %s --tier thorough" % (PY, i),
                           evidence_file="evidence/%s.json" % i,
                           technique="contract-based deductive verification of the functions in /repo (symbolic execution to "
                                     "verification conditions, z3/cvc5), counterexamples replayed on the real code",
                           level=LEVEL.get(i, "proof"), level_note=NOTE + EXTRA.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts not written yet")))
m = dict(version=1, setup_cmd=PY + " -m vc.check --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Every check reads /repo's current source. KNOWN_FINDINGS.md lists the repaired defects.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
