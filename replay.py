"""replay.py FILE : run a recorded counterexample on the real padasip; exit 1 when the property fails there"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    r = json.load(open(sys.argv[1]))
    repo = os.environ.get("VERIF_REPO", "/repo")
    m = importlib.import_module("props." + r["property"].lower())
    case = [c for c in m.cases(r["tier"]) if c["name"] == r["case"]][0]
    from symx.harness import run_concrete
    res = run_concrete(case["fn"], r["env"], r["choices"], repo)
    print("property %s, case %s" % (r["property"], r["case"]))
    print("inputs: %s" % json.dumps(r["env"]))
    print("result: %s %s" % (res["status"], json.dumps(res["failed"][:10])))
    return 1 if res["status"] == "violated" else 0


if __name__ == "__main__":
    sys.exit(main())
