"""writes MANIFEST.json for the properties that have a check in props/"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = ("symbolic execution of the real source over exact real arithmetic; z3 decides every obligation for all values "
        "on all paths; counterexamples are replayed on the real package")
NOTE = ("bounded: array sizes and numbers of calls are bounded as listed per case in the evidence; all values, parameters "
        "and branch choices within them are symbolic; rounding is not modelled")
EXTRA = {
    "P07": "; the OCNLMS memory is a known finding, its recorded behaviour is what is decided",
    "P15": "; inequalities over polynomials",
    "P20": "; numpy.linalg.eig by its contract", "P21": "; numpy.linalg.eig by its contract",
    "P25": "; the generalized Pareto fit is an uninterpreted function",
}
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt /verif/check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt /verif/check.py %s --tier thorough" % i,
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE + EXTRA.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3-vt /verif/check.py --selftest", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
