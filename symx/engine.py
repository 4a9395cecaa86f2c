"""Path exploration of one harness case and decision of its obligations."""
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import arr, cases, solve, terms
from .arr import SArr
from .solve import Enc, Num, Raw, TooBig, EvalError, STATS
from .sstr import SStr
from .terms import (SReal, SBool, Unsupported, PathEnd, Ctx, lift, const, psub, padd, pneg, pkey, is_const, const_val,
                    clear_denominators, scmp, snot, sand, sor, ATOMS, ONE_M)


class HarnessError(Exception):
    pass


class Path:
    pass


class Obl:
    __slots__ = ("label", "kind", "a", "b")

    def __init__(self, label, kind, a, b=None):
        self.label, self.kind, self.a, self.b = label, kind, a, b


class Engine:
    def __init__(self, case, loader_factory, opts):
        self.case = case
        self.opts = opts
        self.loader_factory = loader_factory
        self.stack = []
        self.string_candidates = []
        self.paths = 0
        self.forks = 0
        self.infeasible = 0
        self.validated = 0
        self.observed = 0
        self.samples = []
        self.notes = []
        self.assumed_dens = 0
        self.dom_obligations = 0
        self.assumed_doms = 0
        self.obligations = 0
        self.den_obligations = 0
        self.violation = None
        self.errors = []
        self.reached = 0
        self.steps = 0
        self.deadline = None
        self.den_cache = set()
        self.tol_notes = 0
        self.open = []                  # equalities the solver did not decide; no difference at sampled points
        self.cut = None                 # exploration stopped early
        self.soft = None
        self.soft_out = False
        self.merging = False            # join the branches of conditionals (symx/merge.py)
        self.merge_sites = 0

    # -------------------------------------------------------------- per path state
    def start_path(self, prefix, wit):
        self.prefix = prefix
        self.log = []
        self.pc = []
        self.pc_keys = {}
        self.known = {}
        self.dens = []
        self.spec_dens = {}
        self.doms = []
        self.spec_doms = {}
        self.obls = []
        self.unsupported = None
        self.nfresh = {}
        self.vars = {}
        self.positive = []
        self.wit = dict(wit) if wit is not None else {}
        self.wit_ok = wit is not None or not prefix
        self.env_rnd = random.Random(7)
        self.choices = {}
        self.stream = "g"
        self.streams = {}
        self.seeds = []
        self.nperm = 0
        self.fixed_perm = None
        self.np_errors = dict(self.ERRORS)
        self.rounded = False
        self.undefs = []
        self.axioms = []
        self.ended = False
        self.no_fork = False

    def note_unsupported(self, e):
        if self.unsupported is None:
            self.unsupported = str(e)
            if self.opts.get("debug"):
                traceback.print_stack()

    def new_var(self, name, kind="f", positive=False, rng=None):
        v = terms.var(name, kind, rng)
        (m, _), = v.p.items()
        at = ATOMS[m[0][0]]
        if name not in self.vars:
            self.vars[name] = at
            if positive:
                self.positive.append(at)
            if name not in self.wit:
                if rng:
                    self.wit[name] = Fraction(self.env_rnd.randint(*rng))
                elif kind == "i":
                    self.wit[name] = Fraction(self.env_rnd.randint(-4, 4))
                else:
                    self.wit[name] = self.env_rnd.choice(solve.NICE)
                if positive:
                    self.wit[name] = abs(self.wit[name]) or Fraction(1)
        return v

    def fresh(self, what, kind="f"):
        k = self.nfresh.get(what, 0)
        self.nfresh[what] = k + 1
        return self.new_var("%s!%d" % (what, k), kind)

    # -------------------------------------------------------------- decisions
    def _next(self):
        if self.ended:
            raise PathEnd()
        if self.no_fork:
            raise terms.Impossible
        if len(self.log) < len(self.prefix):
            d = self.prefix[len(self.log)]
            self.log.append(d)
            return d
        return None

    def add_pc(self, b):
        if isinstance(b, bool):
            return
        k = b.key()
        if k in self.pc_keys:
            return
        self.pc_keys[k] = True
        self.pc.append(b)
        self.known[k] = True
        self.known[snot(b).key()] = False
        if b.op == "cmp":
            rel, x, y = b.args
            if rel == "lt":
                self.known[("ge0", pkey(psub(x.p, y.p)))] = False
        if b.op == "and":
            for x in b.args:
                if not isinstance(x, bool):
                    self.known[x.key()] = True

    def wit_val(self, b):
        if not self.wit_ok:
            return None
        try:
            return Num(self.wit).boolean(b)
        except EvalError:
            return None

    def decide(self, b):
        k = b.key()
        if k in self.known:
            return self.known[k]
        d = self._next()
        if d is not None:
            assert d[0] == "b", d
            val = d[1]
            self.add_pc(b if val else snot(b))
            return val
        self.steps += 1
        self.check_time()
        wv = self.wit_val(b)
        first = True if wv is None else wv
        res = {}
        wits = {}
        for val in (first, not first):
            if wv is not None and val == wv:
                res[val] = True
                wits[val] = self.wit
                continue
            f = b if val else snot(b)
            r, env = self.feasible(f)
            res[val] = r != "unsat"
            wits[val] = env
        if not res[True] and not res[False]:
            raise PathEnd()
        val = first if res[first] else (not first)
        if res[True] and res[False]:
            self.forks += 1
            self.stack.append((self.log + [("b", not val)], wits[not val]))
        self.log.append(("b", val))
        self.add_pc(b if val else snot(b))
        if wits[val] is not None:
            self.wit = wits[val]
            self.wit_ok = True
        else:
            self.wit_ok = False
        return val

    def feasible(self, f):
        """is pc and f satisfiable?  (status, environment or None)"""
        pos = self.positive
        env = solve.sample_env(self.pc + [f], self.vars.values(), seed=11, tries=30, timeout=0.15, positive=pos, rounds=0)
        if env is not None:
            full = dict(self.wit)
            full.update(env)
            return "sat", full
        ab = solve.LinEnc()
        fs = [ab.boolean(c) for c in self.pc] + [ab.boolean(f)]
        # without the definitions of the atoms and products: if that is contradictory, so is the rest
        r, _ = solve.check(fs + ab.flush(), 1.0)
        if r == "unsat":
            return r, None
        if any(terms.ATOMS[a].kind == "eig" for a in ab.v if isinstance(a, int)):
            return "unknown", None              # eigenvalue equations: not worth a search
        enc = Enc(ints=False)
        fs = [enc.boolean(c) for c in self.pc] + [enc.boolean(f)] + self.den_facts(enc)
        r, m = solve.check(fs + enc.flush(), self.opts.get("t_feas", 3.0), True)
        if r == "unsat":
            return r, None
        env = None
        if r == "sat":
            e2 = dict(self.wit)
            e2.update(solve.model_values(enc, m))
            if solve.holds(Num(e2), self.pc + [f]):
                env = e2
        return r, env

    def den_facts(self, enc):
        out = []
        for p in self.spec_dens.values():
            out.append(enc.poly(p) != 0)
        for b in self.axioms:
            out.append(enc.boolean(b))
        return out

    def concretize(self, x):
        for _ in range(200):
            d = self._next()
            if d is not None:
                assert d[0] == "v", d
                v = d[1]
            else:
                v = self.pick_int(x)
                self.log.append(("v", v))
            r = scmp("eq", x, const(v, "i"))
            if isinstance(r, bool):
                if r:
                    return v
                terms.fail("concretize")
            if self.decide(r):
                return v
        terms.fail("an index takes too many values")

    def pick_int(self, x):
        cv = solve.closed_value(x.p)
        if cv is not None:
            return int(cv.to_integral_value())
        if self.wit_ok:
            try:
                v = Num(self.wit).poly(x.p)
                return int(round(v))
            except EvalError:
                pass
        enc = Enc(ints=True)
        fs = [enc.boolean(c) for c in self.pc]
        e = enc.poly(x.p)
        r, m = solve.check(fs + enc.flush(), 5.0, True)
        if r == "unsat":
            raise PathEnd()
        if r != "sat":
            terms.fail("index value")
        return int(solve.z3_frac(m.eval(e, model_completion=True)))

    def choose(self, name, n):
        d = self._next()
        if d is None:
            for i in range(1, n):
                self.stack.append((self.log + [("c", i)], dict(self.wit)))
                self.forks += 1
            d = ("c", 0)
            self.log.append(d)
        self.choices[name] = d[1]
        return d[1]

    ERRORS = dict(divide="warn", over="warn", under="ignore", invalid="warn")

    def permutation(self, n):
        k = self.nperm
        self.nperm += 1
        if self.fixed_perm:
            return list(self.fixed_perm(n))
        rest = list(range(n))
        out = []
        while rest:
            i = self.choose("perm%d_%d" % (k, len(out)), len(rest)) if len(rest) > 1 else 0
            out.append(rest.pop(i))
        return out

    def assume(self, b):
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise PathEnd()
            return
        v = self.known.get(b.key())
        if v is not None:
            if not v:
                raise PathEnd()
            return
        if len(self.log) < len(self.prefix):        # replaying decisions taken when this was checked
            self.add_pc(b)
            return
        wv = self.wit_val(b)
        if wv:
            self.add_pc(b)
            return
        r, env = self.feasible(b)
        if r == "unsat":
            raise PathEnd()
        self.add_pc(b)
        if env is not None:
            self.wit = env
            self.wit_ok = True
        else:
            self.wit_ok = False

    # -------------------------------------------------------------- callbacks of the terms
    def hashed_symbol(self):
        n = "symbolic numbers used as dictionary keys (equality with concrete number keys is not explored)"
        if n not in self.notes:
            self.notes.append(n)

    def note_denominator(self, x, in_repo):
        if not x.p:
            return
        c, mono, q = terms.split_content(x.p)
        k = (mono, pkey(q))
        if in_repo:
            self.dens.append((k, x.p, len(self.pc)))
        else:
            self.spec_dens[k] = x.p

    def note_domain(self, kind, x, y, in_repo):
        k = (kind, pkey(x.p), None if y is None else pkey(y.p))
        if in_repo:
            self.doms.append((k, x, y, len(self.pc)))
        else:
            self.spec_doms[k] = (x, y)

    def zero_division(self, a, in_repo):
        if not in_repo:
            raise HarnessError("specification divides by zero")

    def undefined(self, msg):
        terms.fail(msg)

    def note_inverse(self, A):
        pass

    def axiom_le(self, v, c):
        self.axioms.append(scmp("le", v, lift(c)))

    # -------------------------------------------------------------- random numbers
    def draw(self, what, size, params):
        priv = what.startswith("private-")
        base = what.split("-")[-1]
        name = ("p" if priv else self.stream) + ("" if base == "normal" else "u")
        if size is None:
            return self._draw1(name, base, params)
        if isinstance(size, (SReal, SArr)):
            size = (size.__index__(),)
        if isinstance(size, int):
            size = (size,)
        sh = tuple(int(s.__index__()) if not isinstance(s, int) else s for s in size)
        a = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            ps = [q if not isinstance(q, SArr) else q for q in params]
            a[ix] = self._draw1(name, base, ps)
        return SArr(a, arr.DT_F)

    def _draw1(self, name, base, params):
        k = self.streams.get(name, 0)
        self.streams[name] = k + 1
        v = self.new_var("%s#%d" % (name, k))
        p0, p1 = [lift(q) for q in params]
        if base == "normal":
            return p0 + p1 * v
        return p0 + (p1 - p0) * v

    def draw_note(self, what):
        self.seeds.append(what)
        if what[0] == "seed":
            self.stream = "seeded%d" % len(self.seeds)

    ticks = 0

    def tick(self, n):
        """called while big terms are multiplied"""
        self.ticks += n
        if self.ticks > 200000:
            self.ticks = 0
            self.check_time()

    def check_time(self):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Timeout()
        if self.soft and t > self.soft and self.merge_sites:
            self.soft_out = True
            raise Timeout()


class Timeout(BaseException):
    pass


# ------------------------------------------------------------------ exploration
MERGE_AFTER = 150


def explore(case, fn, opts, loader_factory, conc_runner):
    """runs fn(H) on all paths; returns the engine"""
    t0 = time.time()
    limit = opts.get("time", 300)
    eng = explore_with(case, fn, opts, loader_factory, conc_runner, t0 + limit, MERGE_AFTER, False)
    if eng.errors == [TOO_MANY]:
        # simple conditionals are joined instead of explored one way and then the other
        eng = explore_with(case, fn, opts, loader_factory, conc_runner, t0 + 0.7 * limit, None, True)
        if (eng.errors or eng.cut) and not eng.violation:
            eng = explore_with(case, fn, opts, loader_factory, conc_runner, t0 + limit, None, False)
    return eng


TOO_MANY = "many paths"


def explore_with(case, fn, opts, loader_factory, conc_runner, deadline, after, merging):
    from .harness import SymH
    terms.reset_terms()
    eng = Engine(case, loader_factory, opts)
    Ctx.engine = eng
    eng.deadline = deadline
    eng.merging = merging
    if after is not None:
        eng.soft = deadline - 0.75 * opts.get("time", 300)
    eng.stack.append(([], None))
    max_paths = opts.get("max_paths", 4000)
    try:
        while eng.stack:
            eng.check_time()
            prefix, wit = eng.stack.pop()
            eng.start_path(prefix, wit)
            if after is not None and eng.merge_sites and eng.paths + len(eng.stack) >= after:
                eng.errors.append(TOO_MANY)
                break
            if eng.paths >= max_paths:
                eng.cut = "more than %d paths" % max_paths
                break
            exc = None
            tb = ""
            h = SymH(eng)
            try:
                fn(h)
                h.finish()
            except PathEnd:
                eng.infeasible += 1
                if eng.unsupported:
                    unsupported(eng, eng.unsupported, conc_runner)
                    break
                continue
            except Unsupported as e:
                if opts.get("debug"):
                    traceback.print_exc()
                unsupported(eng, e, conc_runner)
                break
            except HarnessError:
                raise
            except Exception as e:
                exc = e
                tb = traceback.format_exc()
                if opts.get("debug"):
                    print(tb)
            if eng.unsupported:
                unsupported(eng, eng.unsupported, conc_runner)
                break
            eng.paths += 1
            finish_path(eng, h, exc, tb, conc_runner)
            if eng.violation or eng.errors:
                break
    except Timeout:
        if eng.soft_out:
            eng.errors.append(TOO_MANY)
        elif eng.paths >= 1:
            eng.cut = "time limit of the case reached after %d paths" % eng.paths
        else:
            eng.errors.append("time limit of the case reached after %d paths" % eng.paths)
    except RecursionError:
        eng.errors.append("recursion limit")
    finally:
        Ctx.engine = None
    if not eng.errors and not eng.violation and not eng.reached:
        eng.errors.append("vacuous: no path reaches the end of the harness")
    return eng


def path_env(eng, seed=0, target=None, extra=None):
    if seed == 0 and target is None and eng.wit_ok and solve.holds(Num(eng.wit), eng.pc):
        return dict(eng.wit)
    env = solve.sample_env(eng.pc, eng.vars.values(), seed=seed, positive=eng.positive, target=target, extra=extra,
                           tries=400 if target else 150, timeout=4.0 if target else 2.0)
    if env is None:
        return None
    full = dict(eng.wit)
    full.update(env)
    return full


def unsupported(eng, what, conc):
    """the code left what can be encoded; models of the path so far may show a violation on the real code all the same"""
    eng.errors.append("unsupported: %s" % what)
    for s in range(3):
        try:
            if try_witness(eng, path_env(eng, seed=s), conc, "found with a model of a path whose end cannot be encoded (%s)" % what):
                return
        except (Unsupported, EvalError):
            return


def numeric_only(res):
    return all("got" in f and "expected" in f for f in res["failed"])


def stable(eng, e, res, conc):
    """is the disagreement on the real code a smooth function of the inputs, i.e. not amplified rounding?"""
    if not numeric_only(res):
        return True
    rnd = random.Random(3)
    ref = {f["label"]: f["got"] - f["expected"] for f in res["failed"]}
    good = set(ref)
    for _ in range(5):
        e2 = {}
        for k, v in e.items():
            v = Fraction(v)
            at = eng.vars.get(k)
            if at is not None and at.args[0] == "f":
                v = v * (1 + Fraction(rnd.randint(-1000, 1000), 10**15))
            e2[k] = v
        r2 = conc(e2, dict(eng.choices))
        if r2["status"] != "violated":
            return False
        d2 = {f["label"]: f.get("got", 0) - f.get("expected", 0) for f in r2["failed"]}
        good = {k for k in good if k in d2 and abs(d2[k] - ref[k]) <= 0.05 * abs(ref[k])}
        if not good:
            return False
    return True


def fine(conc):
    """replays that look for small differences; they have to be stable"""
    return lambda e, choices: conc(e, dict(choices, __tol__=1e-9))


def try_witness(eng, env, conc, why, clear=None, tight=False):
    """replay on the real code; True when the violation is reproduced"""
    if env is None:
        return False
    e = {k: v for k, v in env.items() if k in eng.vars}
    if tight:
        conc = fine(conc)
    choices = dict(eng.choices, **({"__tol__": 1e-9} if tight else {}))
    res = conc(e, dict(eng.choices))
    if res["status"] == "ok" and eng.opts.get("numpy_scalars", True):
        # numbers not in arrays handed over as numpy scalars
        inner, choices["__np__"] = conc, True
        conc = lambda e, ch: inner(e, dict(ch, __np__=True))
        res = conc(e, dict(eng.choices))
    if res["status"] == "violated":
        ok = False
        if clear is not None:
            try:
                ok = bool(clear(solve.NumHP(env)))
            except EvalError:
                ok = False
        if not ok and not stable(eng, e, res, conc):
            return False
        eng.violation = {"case": eng.case, "env": {k: str(v) for k, v in e.items()}, "choices": choices,
                         "why": why, "failed": res["failed"][:6]}
        return True
    return False


def finish_path(eng, h, exc, tb, conc):
    eng.obligations += len(eng.obls)
    # reachability witness and translator validation
    env = path_env(eng)
    if env is None and solve.mentions(eng.pc, "eig"):
        env = path_env(eng, seed=5)
    elif env is None:
        r, m = "unknown", None
        enc = Enc()
        fs = [enc.boolean(b) for b in eng.pc] + eng.den_facts(enc)
        r, m = solve.check(fs + enc.flush(), 10.0, True)
        if r == "unsat":
            eng.infeasible += 1
            return
        if r == "sat":
            env = dict(eng.wit)
            env.update(solve.model_values(enc, m))
    if exc is not None:
        for s in range(4):
            e2 = env if s == 0 else path_env(eng, seed=s)
            if try_witness(eng, e2, conc, "unexpected %s: %s" % (type(exc).__name__, exc)):
                return
        eng.errors.append("the executed code raised %s (%s) on a path where the real code does not: %s"
                          % (type(exc).__name__, exc, tb[-1500:]))
        return
    if env is not None:
        eng.reached += 1
    decide_obligations(eng, env, conc)
    if eng.violation or eng.errors:
        return
    validate(eng, env, conc)


def validate(eng, env, conc):
    """one concrete run of the real code on an assignment of this path"""
    if env is None or eng.validated >= eng.opts.get("max_validate", 60):
        return
    e = {k: v for k, v in env.items() if k in eng.vars}
    res = conc(e, dict(eng.choices))
    if res["status"] == "violated":
        # the solver has shown this impossible: either the model of the code is incomplete or rounding is at work
        bad = [res] if stable(eng, e, res, conc) else []
        for s in range(1, 6):
            e2 = path_env(eng, seed=100 + s)
            if e2 is None:
                continue
            e2 = {k: v for k, v in e2.items() if k in eng.vars}
            r2 = conc(e2, dict(eng.choices))
            if r2["status"] == "violated" and stable(eng, e2, r2, conc):
                bad.append(r2)
                if len(bad) >= 2:
                    eng.violation = {"case": eng.case, "env": {k: str(v) for k, v in e2.items()},
                                     "choices": dict(eng.choices), "why": "found while replaying a model of the path on the "
                                     "real code (behaviour the encoding does not have)", "failed": r2["failed"][:6]}
                    return
        eng.notes.append("one replay of a path model failed and could not be confirmed: %s" % (res["failed"][:2],))
        return
    if res["status"] == "ok":
        eng.validated += 1
        n = compare_values(eng, e, res)
        if len(eng.samples) < 3:
            eng.samples.append({"case": eng.case, "inputs": {k: str(v) for k, v in list(e.items())[:8]},
                                "choices": dict(list(eng.choices.items())[:6]), "obligations": len(eng.obls), "values_compared": n})


def compare_values(eng, env, res):
    """symbolic results evaluated at the assignment against the results of the real code"""
    num = Num(env)
    n = 0
    vals = res.get("values", [])
    k = 0
    for o in eng.obls:
        if o.kind != "eq":
            continue
        if k >= len(vals):
            break
        cv = vals[k]
        k += 1
        if cv is None or not isinstance(o.a, SReal):
            continue
        if n >= 400:
            break
        try:
            sv = num.poly(o.a.p)
        except EvalError:
            continue
        n += 1
        if abs(sv - cv) > 1e-6 * max(1.0, abs(sv), abs(cv)):
            eng.mismatch = getattr(eng, "mismatch", 0) + 1
            if len(eng.notes) < 20:
                eng.notes.append("value mismatch at %s: symbolic %r, real %r" % (o.label, sv, cv))
    eng.observed += n
    return n


def decide_obligations(eng, env, conc):
    opts = eng.opts
    # ---- denominators of the code under test
    seen = set()
    for k, p, npc in eng.dens:
        if k in eng.spec_dens or k in seen:
            continue
        seen.add(k)
        ck = (k, tuple(b.key() for b in eng.pc))
        if k in eng.den_cache and not eng.pc:
            continue
        eng.den_obligations += 1
        if covered_den(eng, k):
            continue
        ab = solve.AbsEnc()
        fs = [ab.poly(q) != 0 for q in eng.spec_dens.values()] + [ab.poly(p) == 0]
        for at in eng.positive:
            if at.aid in ab.v:
                fs.append(ab.v[at.aid] > 0)
        r, _ = solve.check(fs + ab.flush(), 1.0)
        if r == "unsat":
            if not eng.pc:
                eng.den_cache.add(k)
            continue
        enc = Enc()
        fs = [enc.boolean(b) for b in eng.pc[:npc]] + eng.den_facts(enc) + [enc.poly(p) == 0]
        r, m = solve.check(fs + enc.flush(), opts.get("t_den", 3.0), True)
        if r == "unsat":
            if not eng.pc:
                eng.den_cache.add(k)
            continue
        if r == "sat":
            e2 = dict(eng.wit)
            e2.update(solve.model_values(enc, m))
            for i in range(2):
                if try_witness(eng, e2, conc, "division by zero"):
                    return
        eng.assumed_dens += 1
    # ---- domains of square roots, logarithms and powers in the code under test
    seen = set()
    for k, x, y, npc in eng.doms:
        if k in eng.spec_doms or k in seen:
            continue
        seen.add(k)
        if k in eng.den_cache and not eng.pc:
            continue
        eng.dom_obligations += 1
        if decide_domain(eng, k[0], x, y, npc, conc):
            if not eng.pc:
                eng.den_cache.add(k)
        elif eng.violation:
            return
        else:
            eng.assumed_doms += 1
    # ---- obligations
    eqs = [o for o in eng.obls if o.kind == "eq"]
    bad = [o for o in eng.obls if o.kind == "false"]
    checks = [o for o in eng.obls if o.kind == "check"]
    for o in bad:
        for s in range(3):
            if try_witness(eng, env if s == 0 else path_env(eng, seed=s), conc, o.label):
                return
        eng.errors.append("obligation %r fails on a path but the real code does not reproduce it" % o.label)
        return
    hard = []
    easy = []
    for o in eqs:
        d = psub(o.a.p, o.b.p)
        if not d:
            easy.append(o)
            STATS.normalised += 1
            continue
        c = None
        if not is_const(d):
            c = clear_denominators(d, 20000)
        if c is not None and not c:
            easy.append(o)
            STATS.cleared += 1
        else:
            hard.append((o, d, c))
    if easy:
        raw_batch(eng, easy)
    for o, d, c in hard:
        eng.check_time()
        if not decide_eq(eng, o, d, c, env, conc):
            return
    for o in checks:
        eng.check_time()
        if not decide_bool(eng, o, env, conc):
            return


def decide_domain(eng, kind, x, y, npc, conc):
    """can the argument of a square root, logarithm or power of the code leave the domain?"""
    def outside(enc, z):
        p = enc.poly(x.p)
        if z == 0:
            return p < 0
        return p == 0 if y is None else [p == 0, enc.poly(y.p) < 0]

    def facts(enc):
        fs = []
        for (kd, _, _), (a, b) in eng.spec_doms.items():
            fs.append(enc.poly(a.p) > 0 if kd == "log" else enc.poly(a.p) >= 0)
        return fs
    good = True
    for z in (0, 1):
        if z and (kind == "sqrt" or (y is not None and y.is_const() and y.const() >= 0)):
            continue
        if not z and terms.nonneg_form(x):
            continue
        ab = solve.AbsEnc()
        o = outside(ab, z)
        fs = facts(ab) + (o if isinstance(o, list) else [o]) + [ab.poly(q) != 0 for q in eng.spec_dens.values()]
        for at in eng.positive:
            if at.aid in ab.v:
                fs.append(ab.v[at.aid] > 0)
        if solve.check(fs + ab.flush(), 1.0)[0] == "unsat":
            continue
        enc = Enc()
        o = outside(enc, z)
        fs = [enc.boolean(b) for b in eng.pc[:npc]] + eng.den_facts(enc) + facts(enc) + (o if isinstance(o, list) else [o])
        r, m = solve.check(fs + enc.flush(), eng.opts.get("t_den", 3.0), True)
        if r == "unsat":
            continue
        good = False
        if r == "sat":
            e2 = dict(eng.wit)
            e2.update(solve.model_values(enc, m))
            for env in (e2, path_env(eng, seed=11, target=lambda n: n.poly(x.p) < -1e-6) if z == 0 else None):
                if env is not None and try_witness(eng, env, conc, "argument outside the domain of %s" % kind,
                                                   (lambda n: n.poly(x.p) < -1e-6) if z == 0 else None):
                    return False
    return good


def covered_den(eng, k):
    """the denominator is a product of powers of denominators of the specification"""
    mono, q = k
    keys = set(eng.spec_dens)
    if q != frozenset({(ONE_M, 1)}) and ((), q) not in keys and not any(kk[1] == q for kk in keys):
        # perfect powers
        return False
    allowed = set()
    for m, _ in keys:
        allowed.update(a for a, _ in m)
    return all(a in allowed or ATOMS[a].kind in ("exp",) or ATOMS[a].kind == "den" for a, _ in mono)


def raw_batch(eng, easy):
    """the equalities that hold after normalisation, once more on the operations as executed"""
    budget = eng.opts.get("t_raw", 0.4)
    if eng.raw_spent > eng.opts.get("raw_total", 6.0) if hasattr(eng, "raw_spent") else False:
        return
    raw = Raw()
    t0 = time.time()
    try:
        fs = [raw.boolean(b) for b in eng.pc]
        neq = []
        for o in easy:
            if o.a.p == o.b.p and o.a is o.b:
                continue
            neq.append(raw.real(o.a) != raw.real(o.b))
        if neq:
            import z3
            for p in eng.spec_dens.values():
                fs.append(raw.poly(p) != 0)
            r, _ = solve.check(fs + raw.ax + [z3.Or(neq)], budget)
            if r == "unsat":
                STATS.raw_unsat += len(neq)
    except TooBig:
        pass
    eng.raw_spent = getattr(eng, "raw_spent", 0.0) + time.time() - t0


TOL_EXACT = Fraction(1, 10**7)
TOL = Fraction(1, 1000)
BOX = 8


def box(enc, eng):
    import z3
    fs = []
    for at in eng.vars.values():
        x = enc.var(at.aid)
        fs.append(z3.And(x >= -BOX, x <= BOX) if at.args[0] != "i" else z3.And(x >= -300, x <= 300))
    return fs


def amplified(eng, envs, target, limit=3.0):
    """assignments at which a difference that is small at ordinary values is a clear one"""
    envs = [e for e in envs if e]
    names = [k for k, at in eng.vars.items() if at.args[0] == "f"]
    if not envs or not names:
        return
    rnd, t0, found = random.Random(9), time.time(), 0
    while time.time() - t0 < limit and found < 3:
        e = dict(rnd.choice(envs))
        for k in rnd.sample(names, min(len(names), rnd.randint(1, 3))):
            e[k] = Fraction(e.get(k, 0) or 1) * Fraction(10) ** rnd.randint(-2, 10) * rnd.randint(1, 9)
        try:
            num = Num(e)
            if target(num) and solve.holds(num, eng.pc) and all(float(e.get(at.name, 1)) > 0 for at in eng.positive):
                found += 1
                yield e
        except (EvalError, KeyError):
            continue


def shrunk(eng, envs, o, d, limit=1.5):
    """assignments of small numbers at which the two sides differ clearly in relation to their size"""
    envs = [e for e in envs if e]
    names = [k for k, at in eng.vars.items() if at.args[0] == "f"]
    if not envs or not names:
        return
    rnd, t0, found = random.Random(7), time.time(), 0
    while time.time() - t0 < limit and found < 2:
        e = dict(rnd.choice(envs))
        f = Fraction(10) ** -rnd.randint(1, 8)
        whole = rnd.random() < 0.6
        for k in names if whole else rnd.sample(names, min(len(names), rnd.randint(1, 3))):
            e[k] = Fraction(e.get(k, 0) or 1) * f * (1 if whole else rnd.randint(1, 9))
        try:
            num = Num(e)
            if not solve.holds(num, eng.pc) or not all(float(e.get(at.name, 1)) > 0 for at in eng.positive):
                continue
            size = max(abs(num.poly(o.a.p)), abs(num.poly(o.b.p)))
            if size > 1e-100 and abs(num.poly(d)) > 0.02 * size:
                try:
                    hp = solve.NumHP(e)
                    a, b = float(hp.poly(o.a.p)), float(hp.poly(o.b.p))
                except EvalError:
                    hp, a, b = num, float(num.poly(o.a.p)), float(num.poly(o.b.p))
                if abs(a - b) > 0.01 * max(abs(a), abs(b)) and solve.holds(hp, eng.pc):
                    found += 1
                    yield e, a, b
        except (EvalError, KeyError, OverflowError, ZeroDivisionError):
            continue


def small_witness(eng, e, a, b, conc, label):
    """replay at small numbers: the real code has to give the two exact values, which are a per cent and more apart"""
    rel = lambda e, choices: conc(e, dict(choices, __rel__=True))
    e = {k: v for k, v in e.items() if k in eng.vars}
    res = rel(e, dict(eng.choices))
    if res["status"] != "violated" or not numeric_only(res):
        return False
    close = lambda x, y: abs(x - y) <= 1e-3 * max(abs(x), abs(y))
    hits = [f for f in res["failed"] if f["label"] == label and close(f["got"], a) and close(f["expected"], b)]
    if not hits or not stable(eng, e, dict(res, failed=hits), rel):
        return False
    eng.violation = {"case": eng.case, "env": {k: str(v) for k, v in e.items()}, "choices": dict(eng.choices, __rel__=True), "why": label, "failed": hits[:6]}
    return True


def unround(eng, env, seed):
    """the assignment moved a little, to values with many binary digits"""
    if env is None:
        return None
    rnd = random.Random(seed)
    out = {}
    for k, v in env.items():
        v, at = Fraction(v), eng.vars.get(k)
        if at is not None and at.args[0] == "f":
            v = v + (abs(v) + 1) * Fraction(rnd.randint(1, 2**30), 2**(36 if seed % 2 else 44))
        out[k] = v
    return out if solve.holds(Num(out), eng.pc) else None


def decide_eq(eng, o, d, c, env, conc):
    import z3
    opts = dict(eng.opts)
    if eng.open:                        # no better luck with the next one
        opts.update(t_eq=1.5, t_margin=1.5)

    def target(num):
        return abs(num.poly(d)) > 1e-4 * max(1.0, abs(num.poly(o.a.p)), abs(num.poly(o.b.p)))
    if is_const(d):
        for s in range(3):
            if try_witness(eng, env if s == 0 else path_env(eng, seed=s), conc, o.label):
                return False
        if abs(const_val(d)) < TOL_EXACT:
            eng.tol_notes += 1
            return True
        eng.errors.append("obligation %r differs by a constant on a path but the real code does not reproduce it" % o.label)
        return False
    # 0. follows from the branch conditions alone
    if eng.pc and len(d) <= 60:
        lin = solve.LinEnc()
        fs = [lin.boolean(b) for b in eng.pc] + [lin.poly(d) != 0]
        if solve.check(fs + lin.flush(), 0.5)[0] == "unsat":
            return True
    # 0b. sums of logarithms: compare the products of the arguments
    ab = log_products(d)
    if ab is not None:
        A, B = ab
        if not psub(A, B) or not padd(A, B):
            STATS.cleared += 1
            return True
        enc = Enc()
        x, y = enc.poly(A), enc.poly(B)
        fs = [enc.boolean(b) for b in eng.pc] + eng.den_facts(enc) + [x != y, x != -y]
        if solve.check(fs + enc.flush(), opts.get("t_eq", 8.0))[0] == "unsat":
            return True
    # 1. exact
    enc = Enc()
    fs = [enc.boolean(b) for b in eng.pc] + eng.den_facts(enc)
    if c is not None:
        enc.touch(d)
        fs.append(enc.poly(c) != 0)
    else:
        fs.append(enc.poly(d) != 0)
    fs += enc.flush()
    t_eq = opts.get("t_eq", 8.0)
    r, m = solve.check(fs, min(t_eq, 1.5), True)
    if r == "unsat":
        return True
    # 1b. case by case over the signs of what absolute values, signs and conditions depend on
    if cases.decide_zero(d, eng.pc, list(eng.spec_dens.values()), 1.0 if eng.open else 4.0):
        return True
    if r == "unknown" and t_eq > 1.5:
        r, m = solve.check(fs, t_eq, True)
        if r == "unsat":
            return True
    exact = r
    envs = []
    if m is not None:
        e2 = dict(eng.wit)
        e2.update(solve.model_values(enc, m))
        envs.append(e2)
    if eng.rounded:         # rounding to a narrow type shows at values that need more digits
        for s in range(6):
            if try_witness(eng, unround(eng, path_env(eng, seed=s), s), conc, o.label, tight=True):
                return False
    # 2. a generic point (numerically checked), then a clear difference inside the box
    e3 = path_env(eng, seed=3, target=target)
    for e in ([e3] if e3 else []) + envs:
        if try_witness(eng, e, conc, o.label, target):
            return False
    enc = Enc(pairs=True)
    if solve.monotone(d, eng.pc):
        # the same with the order of the arguments of logarithms and exponentials
        fs = [enc.boolean(b) for b in eng.pc] + eng.den_facts(enc) + [enc.poly(d) != 0]
        r1, m = solve.check(fs + enc.flush(), opts.get("t_eq", 8.0), True)
        if r1 == "unsat":
            return True
        enc = Enc(pairs=True)
    dd = enc.poly(d)
    fs = [enc.boolean(b) for b in eng.pc] + eng.den_facts(enc) + [z3.Or(dd > Q(TOL), dd < -Q(TOL))] + box(enc, eng)
    r2, m = solve.check(fs + enc.flush(), opts.get("t_margin", 12.0), True)
    if r2 == "sat":
        e2 = dict(eng.wit)
        e2.update(solve.model_values(enc, m))
        if try_witness(eng, e2, conc, o.label, target):
            return False
    for s in range(4, 10):
        def extra(enc):
            dd = enc.poly(d)
            return [z3.Or(dd > Q(TOL), dd < -Q(TOL))]
        e = path_env(eng, seed=s, target=target, extra=extra)
        if e is not None and try_witness(eng, e, conc, o.label, target):
            return False
    for e in amplified(eng, [e3, env] + envs, target):
        if try_witness(eng, e, conc, o.label, target):
            return False
    for e, a, b in shrunk(eng, [e3, env] + envs, o, d):
        if small_witness(eng, e, a, b, conc, o.label):
            return False
    # 3. within rounding?
    enc = Enc()
    dd = enc.poly(d)
    fs = [enc.boolean(b) for b in eng.pc] + eng.den_facts(enc) + [z3.Or(dd > Q(TOL_EXACT), dd < -Q(TOL_EXACT))] + box(enc, eng)
    r3, m = solve.check(fs + enc.flush(), opts.get("t_margin", 12.0), True)
    if r3 == "unsat":
        eng.tol_notes += 1
        eng.notes.append("%s: equal within 1e-7 for |values| <= %d" % (o.label, BOX))
        return True
    if agree(eng, o, d, conc):
        eng.open.append("%s (exact %s, margin %s)" % (o.label, exact, r2))
        return True
    eng.errors.append("undecided equality %r (exact %s, margin %s): %s" % (o.label, exact, r2, terms.pstr(d)[:300]))
    return False


def agree(eng, o, d, conc):
    """no difference at some generic points, computed with 80 digits (reported as undecided, not as shown)"""
    n = 0
    for s in range(20, 40):
        e = path_env(eng, seed=s)
        if e is None:
            continue
        try:
            num = solve.NumHP(e)
            if abs(num.poly(d)) > num.mp.mpf(10) ** -30 * (1 + abs(num.poly(o.a.p))):
                return False
        except (EvalError, Unsupported):
            continue
        n += 1
        if n >= 8:
            return True
    return False


def log_products(d):
    """sum of c log10|q| + c0 is 0 iff |A| = |B|; (A, B) as polynomials, or None"""
    const_, cs = Fraction(0), []
    for m, c in d.items():
        c = Fraction(c)
        if m == ONE_M:
            const_ = c
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log10":
            cs.append((c, ATOMS[m[0][0]].args[0]))
        else:
            return None
    if not cs:
        return None
    L = 1
    for c, _ in cs + [(const_, None)]:
        L = L * c.denominator // math.gcd(L, c.denominator)
    if L > 6 or abs(const_ * L) > 400 or sum(abs(c * L) for c, _ in cs) > 16:
        return None
    k = int(const_ * L)
    A, B = {ONE_M: 10 ** max(k, 0)}, {ONE_M: 10 ** max(-k, 0)}
    for c, q in cs:
        for _ in range(abs(int(c * L))):
            if c > 0:
                A = terms.pmul(A, q)
            else:
                B = terms.pmul(B, q)
            if len(A) + len(B) > 4000:
                return None
    return A, B


def decide_bool(eng, o, env, conc):
    b = o.a
    import z3
    opts = eng.opts
    enc = Enc()
    fs = [enc.boolean(x) for x in eng.pc] + eng.den_facts(enc) + [z3.Not(enc.boolean(b))]
    fs += enc.flush()
    r, m = solve.check(fs, opts.get("t_bool", 10.0), True)
    if r == "unknown":
        r, m = solve.check(fs, opts.get("t_bool", 10.0), True, tactic="nra")
    if r == "unknown":
        raw = Raw()
        try:
            fr = [raw.boolean(x) for x in eng.pc] + [z3.Not(raw.boolean(b))]
            for p in eng.spec_dens.values():
                fr.append(raw.poly(p) != 0)
            r2, _ = solve.check(fr + raw.ax, opts.get("t_bool", 10.0))
            if r2 == "unsat":
                r = "unsat"
                STATS.raw_unsat += 1
        except TooBig:
            pass
    if r == "unsat":
        return True
    if m is not None:
        e2 = dict(eng.wit)
        e2.update(solve.model_values(enc, m))
        if try_witness(eng, e2, conc, o.label, lambda n: not n.boolean(b)):
            return False
    for s in range(1, 8):
        e = path_env(eng, seed=s, target=lambda n: not n.boolean(b), extra=lambda enc: [z3.Not(enc.boolean(b))])
        if e is not None and try_witness(eng, e, conc, o.label, lambda n: not n.boolean(b)):
            return False
    eng.errors.append("undecided condition %r (%s)" % (o.label, r))
    return False


from .solve import Q  # noqa: E402
