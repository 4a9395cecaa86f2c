#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--case SUBSTRING] [--debug] [--jobs N]

Decides one property by symbolic execution of /repo's current source (see DESIGN.md).
exit 0: holds on everything explored; exit 1 + VIOLATION line: reproduced counterexample; exit 2: no answer."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
REALPY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def load_cases(pid, tier):
    m = importlib.import_module("props." + pid.lower())
    return m, m.cases(tier)


def run_case(args):
    pid, tier, idx, debug, cross = args
    t0 = time.time()
    m, cases = load_cases(pid, tier)
    c = cases[idx]
    out = {"case": c["name"], "bounds": c.get("bounds", "")}
    try:
        from symx import engine, solve, harness, loader
        sys.setrecursionlimit(20000)
        solve.CROSS["on"] = cross
        cov = loader.Coverage(os.path.join(os.path.realpath(REPO), ""))
        fn = c["fn"]

        def conc(env, choices):
            return harness.run_concrete(fn, env, choices, REPO)
        opts = dict(c.get("opts", {}))
        opts["debug"] = debug
        if tier == "thorough":
            for k in ("t_eq", "t_bool", "t_margin"):
                opts[k] = 3 * opts.get(k, 10.0)
            opts["raw_total"] = 60.0
            opts["t_raw"] = 2.0
            opts["time"] = 6 * opts.get("time", 300)
        if c.get("doc"):
            # documented behaviour first; only where it fails in the recorded way the deviation is decided
            doc = c["doc"]
            e0 = engine.explore(c["name"], doc, dict(opts), lambda: loader.Loader(REPO),
                                lambda env, choices: harness.run_concrete(doc, env, choices, REPO))
            if not e0.violation and not e0.errors:
                eng = e0
            else:
                eng = engine.explore(c["name"], fn, opts, lambda: loader.Loader(REPO), conc)
                if not eng.violation and not eng.errors:
                    if e0.violation:
                        out["known"] = c["known"]
                        out["known_witness"] = e0.violation
                    else:
                        eng.errors = e0.errors
        else:
            eng = engine.explore(c["name"], fn, opts, lambda: loader.Loader(REPO), conc)
        cov.stop()
        out.update(paths=eng.paths, forks=eng.forks, infeasible=eng.infeasible, reached=eng.reached,
                   obligations=eng.obligations, den_obligations=eng.den_obligations, assumed_dens=eng.assumed_dens,
                   dom_obligations=eng.dom_obligations, assumed_doms=eng.assumed_doms,
                   validated=eng.validated, observed=eng.observed, mismatches=getattr(eng, "mismatch", 0),
                   samples=eng.samples, notes=eng.notes[:10], tol_notes=eng.tol_notes, violation=eng.violation,
                   errors=eng.errors, open=eng.open[:50], cut=eng.cut, functions=sorted(cov.seen), solver=solve.STATS.as_dict(), cross=dict(solve.CROSS),
                   decisions=eng.steps)
    except BaseException as e:
        out["errors"] = ["%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])]
        if isinstance(e, KeyboardInterrupt):
            raise
    out["wall"] = time.time() - t0
    return out


def warm():
    """everything the forked workers share"""
    import numpy                     # noqa: F401
    import scipy.stats               # noqa: F401
    from symx import engine, solve, harness, loader          # noqa: F401
    loader.Loader(REPO).load("padasip")


def run_replay(path):
    """the counterexample on the real package, in a process of its own"""
    r = subprocess.run([REALPY, os.path.join(HERE, "replay.py"), path], capture_output=True, text=True, timeout=300,
                       cwd=HERE, env=dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1"))
    return r.returncode, r.stdout + r.stderr


def known_findings(pid):
    out = []
    f = os.path.join(HERE, "known_findings.json")
    if os.path.exists(f):
        for r in json.load(open(f)):
            if r.get("property") == pid and r.get("status") == "known":
                out.append(r)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?", default="")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        warm()
        from symx import selftest
        sys.setrecursionlimit(20000)
        n, bad = selftest.run()
        for b in bad:
            print("selftest FAILED: %s" % b)
        print("selftest: %d statements, %d wrong verdicts" % (n, len(bad)))
        return 1 if bad else 0
    pid, tier = a.property.upper(), a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        mod, cases = load_cases(pid, tier)
    except Exception:
        traceback.print_exc()
        return 2
    try:
        warm()
    except Exception:
        traceback.print_exc()
        return 2
    idx = [i for i, c in enumerate(cases) if not a.case or a.case in c["name"]]
    cross = tier == "thorough"
    # expensive and cheap cases in turn: the expensive ones start early, and a defect the cheap ones show is met early
    order = sorted(idx, key=lambda i: -cases[i].get("cost", 1))
    order = [order[k // 2] if k % 2 == 0 else order[-1 - k // 2] for k in range(len(order))]
    jobs = [(pid, tier, i, a.debug, cross) for i in order]
    results = []
    limit = (780 if tier == "quick" else 6 * 3600)
    if a.debug or a.jobs == 1:
        for j in jobs:
            results.append(run_case(j))
            show(results[-1], a.v or a.debug)
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(a.jobs, maxtasksperchild=1) as pool:
            pend = {i: pool.apply_async(run_case, (j,)) for i, j in enumerate(jobs)}
            stop = False
            while pend and not stop:
                for i in list(pend):
                    if pend[i].ready():
                        try:
                            r = pend[i].get()
                        except Exception as e:
                            r = {"case": cases[jobs[i][2]]["name"], "errors": ["worker: %r" % e], "wall": 0}
                        del pend[i]
                        results.append(r)
                        show(r, a.v)
                        if r.get("violation"):
                            stop = True
                if time.time() - t0 > limit:
                    for i in pend:
                        results.append({"case": cases[jobs[i][2]]["name"], "cut": "time limit of the check", "wall": 0})
                    stop = True
                time.sleep(0.02)
            pool.terminate()
    return report(pid, tier, mod, results, t0, len(cases), bool(a.case))


def show(r, verbose):
    if verbose or r.get("errors"):
        print("%-46s %s paths=%s obl=%s val=%s/%s q=%s t=%.1fs solver=%.1fs %s" % (
            r["case"], "VIOL" if r.get("violation") else "ERR" if r.get("errors") else "ok", r.get("paths"),
            r.get("obligations"), r.get("validated"), r.get("observed"), (r.get("solver") or {}).get("queries"),
            r.get("wall", 0), (r.get("solver") or {}).get("time", 0), "; ".join(r.get("notes") or [])[:300]))
    for e in r.get("errors") or []:
        print("  NO ANSWER in %s: %s" % (r["case"], e))
    if verbose and r.get("violation"):
        print("  ", json.dumps(r["violation"])[:1500])
    sys.stdout.flush()


def report(pid, tier, mod, results, t0, ncases, partial):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    code = 0
    viols, unconfirmed = [], []
    known = known_findings(pid)
    for r in results:
        v = r.get("violation")
        if not v:
            continue
        path = os.path.join(EVID, "replay", "%s-%s.json" % (pid, hashlib.sha1(r["case"].encode()).hexdigest()[:8]))
        json.dump({"property": pid, "tier": tier, "case": r["case"], "env": v["env"], "choices": v["choices"],
                   "why": v["why"], "failed": v["failed"]}, open(path, "w"), indent=1)
        rc, txt = run_replay(path)
        if rc == 1:
            viols.append((r, path))
        else:
            unconfirmed.append((r, txt))
    listed = {k.get("id") for k in known}
    for r in results:
        if r.get("known") and r["known"] not in listed:
            r.setdefault("errors", []).append("deviation %r is not in known_findings.json" % r["known"])
    for k in known:
        if not any(r.get("known") == k.get("id") for r in results):
            continue                      # no longer fails
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r, path in viols[:3]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case %s: %s; %s" % (r["case"], r["violation"]["why"], json.dumps(r["violation"]["failed"][:3])))
        code = 1
    errs = [(r["case"], e) for r in results for e in r.get("errors") or []]
    for r, txt in unconfirmed:
        errs.append((r["case"], "counterexample not reproduced in a separate process: " + txt[-500:]))
    cuts = [(r["case"], r["cut"]) for r in results if r.get("cut") and not r.get("errors")]
    opens = [(r["case"], o) for r in results for o in r.get("open") or []]
    for c, w in (cuts + opens)[:10]:
        print("INCOMPLETE: %s: %s" % (c, w))
    if 4 * len(cuts) > max(len(results), 8):
        errs += cuts                  # too little was explored to say anything
    if errs and not code:
        code = 2
        for c, e in errs[:10]:
            print("NO ANSWER: %s: %s" % (c, str(e)[:600]))
    tot = lambda k: sum(r.get(k) or 0 for r in results)
    sol = {}
    cross = {"agree": 0, "unknown": 0, "disagree": 0}
    for r in results:
        for k, v in (r.get("solver") or {}).items():
            sol[k] = max(sol.get(k, 0), v) if k == "max_query" else round(sol.get(k, 0) + v, 3)
        c = r.get("cross") or {}
        cross["agree"] += c.get("agree", 0)
        cross["unknown"] += c.get("unknown", 0)
        cross["disagree"] += len(c.get("disagree") or [])
    if cross["disagree"] and not code:
        code = 2
        print("NO ANSWER: z3 and cvc5 disagree on %d queries" % cross["disagree"])
    funcs = sorted({f for r in results for f in r.get("functions") or []})
    samples = [s for r in results for s in (r.get("samples") or [])][:12]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("infeasible"), "transitions": tot("decisions") + tot("obligations"),
            "traces_validated_against_impl": tot("validated"), "samples": samples or [{"note": "none"}],
            "technique": "symbolic execution of the real source with exact real arithmetic; z3 decides every obligation",
            "cases": len(results), "cases_total": ncases, "paths_completed": tot("paths"), "paths_reaching_the_end": tot("reached"),
            "paths_infeasible": tot("infeasible"), "branch_forks": tot("forks"), "obligations": tot("obligations"),
            "denominator_obligations": tot("den_obligations"), "denominators_assumed_nonzero": tot("assumed_dens"),
            "domain_obligations": tot("dom_obligations"), "domains_assumed": tot("assumed_doms"),
            "values_compared_with_real_code": tot("observed"), "value_mismatches": tot("mismatches"),
            "equal_up_to_1e-7_only": tot("tol_notes"),
            "solver": sol, "second_solver_cvc5": cross if tier == "thorough" else "thorough tier only",
            "known_findings_seen": {r["case"]: r["known"] for r in results if r.get("known")},
            "functions_encoded": funcs,
            "bounds": {r["case"]: r.get("bounds", "") for r in results},
            "case_times_s": {r["case"]: round(r.get("wall", 0), 2) for r in results},
            "violation_details": [{"case": r["case"], "replay": p, "why": r["violation"]["why"]} for r, p in viols],
            "explored_in_part": [list(map(str, e)) for e in cuts][:50],
            "equalities_undecided_no_difference_found": [list(map(str, e)) for e in opens][:50],
            "no_answer": [list(map(str, e)) for e in errs][:20],
            "outside_the_claim": getattr(mod, "OUTSIDE", "") or "sizes beyond the bounds; floating point rounding, overflow, NaN and infinities",
        },
        "assumptions": ["arithmetic is exact real arithmetic (IEEE rounding, overflow, NaN, infinities are not modelled)",
                        "numpy/scipy functions behave as their documented contracts, modelled in symx/npshim.py, symx/arr.py",
                        "sizes are bounded as listed per case"] + list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": len(viols),
        "wall_s": round(time.time() - t0, 2),
    }
    if not partial:
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: %d/%d cases, %d paths, %d obligations, %d real-code replays, %d queries, solver %.1f s, wall %.1f s -> %s" % (
        pid, tier, len(results), ncases, tot("paths"), tot("obligations"), tot("validated"), sol.get("queries", 0),
        sol.get("time", 0), time.time() - t0, {0: "holds on what was explored" if cuts or opens else "holds", 1: "VIOLATED", 2: "no answer"}[code]))
    return code


if __name__ == "__main__":
    sys.exit(main())
