"""z3 encodings of terms and the decision procedure for obligations."""
import decimal
import math
import random
import time
from fractions import Fraction

import z3

from . import terms
from .terms import (ATOMS, SReal, SBool, ONE_M, pkey, psub, pneg, is_const, const_val, clear_denominators, lift, NARROW)

decimal.getcontext().prec = 60
decimal.DefaultContext.prec = 60        # of other threads


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.raw_unsat = 0
        self.normalised = 0
        self.cleared = 0
        self.max_query = 0.0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()
CROSS = {"on": False, "agree": 0, "disagree": [], "unknown": 0, "time": 0.0, "budget": 30.0}


def Q(c):
    c = Fraction(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


# ------------------------------------------------------------------ closed constants
def enclosure(f, x):
    """bounds of the constant f(x), from two precisions (set here: the decimal context is a matter of the thread), or None"""
    v = []
    for prec in (60, 120):
        with decimal.localcontext() as c:
            c.prec, c.Emax, c.Emin = prec, decimal.MAX_EMAX, decimal.MIN_EMIN
            w = f(x)
            if w is None or not w.is_finite():
                return None
            v.append(Fraction(w))
    r = 1000 * abs(v[0] - v[1]) + Fraction(1, 10**50) * (1 + abs(v[1]))
    return v[1] - r, v[1] + r


def closed_value(p):
    """decimal value of a term without variables, or None"""
    tot = decimal.Decimal(0)
    for m, c in p.items():
        c = Fraction(c)
        v = decimal.Decimal(c.numerator) / decimal.Decimal(c.denominator)
        for a, e in m:
            w = _closed_atom(ATOMS[a])
            if w is None:
                return None
            v *= w ** e
        tot += v
    return tot


def _closed_atom(at):
    k = at.kind
    if k == "sqrt":
        w = closed_value(at.args[0])
        return None if w is None else w.sqrt()
    if k == "exp":
        w = closed_value(at.args[0])
        return None if w is None else w.exp()
    if k == "log10":
        w = closed_value(at.args[0])
        return None if w is None or w == 0 else abs(w).log10()
    if k == "ln10":
        return decimal.Decimal(10).ln()
    if k == "den":
        w = closed_value(at.args[0])
        return None if w is None else w
    if k == "abs":
        w = closed_value(at.args[0])
        return None if w is None else abs(w)
    if k == "pow":
        b, e = closed_value(at.args[0]), closed_value(at.args[1])
        return None if b is None or e is None or b <= 0 else b ** e
    if k == "max":
        ws = [closed_value(q) for q in at.args]
        return None if any(w is None for w in ws) else max(ws)
    return None


# ------------------------------------------------------------------ encoding
class Enc:
    """canonical encoding of one query: atoms become variables constrained by axioms"""

    def __init__(self, ints=False, pairs=False):
        self.pairs = pairs
        self.logs = []
        self.ufs = {}
        self.v = {}
        self.todo = []
        self.ax = []
        self.ints = ints
        self.extra = []

    def var(self, aid):
        x = self.v.get(aid)
        if x is None:
            at = ATOMS[aid]
            x = z3.Real("%s_%d" % (at.kind, aid))
            self.v[aid] = x
            self.todo.append(at)
        return x

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            fs = []
            if c != 1 or not m:
                fs.append(Q(c))
            for a, e in m:
                at = ATOMS[a]
                if at.kind == "den":
                    x = self.var(a)          # x stands for 1/den
                    fs.extend([x] * (-e))
                elif e > 0:
                    fs.extend([self.var(a)] * e)
                else:
                    fs.extend([self.recip(a)] * (-e))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def recip(self, aid):
        k = ("r", aid)
        x = self.v.get(k)
        if x is None:
            x = z3.Real("rec_%d" % aid)
            self.v[k] = x
            self.ax.append(x * self.var(aid) == 1)
        return x

    def boolean(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op == "cmp":
            rel, x, y = b.args
            d = psub(y.p, x.p)
            if rel == "eq":
                c = clear_denominators(d, 3000)
                if c is not None:
                    self.touch(d)
                    return self.poly(c) == 0
                return self.poly(d) == 0
            e = self.poly(d)
            return e > 0 if rel == "lt" else e >= 0
        if b.op == "not":
            return z3.Not(self.boolean(b.args[0]))
        if b.op == "and":
            return z3.And([self.boolean(x) for x in b.args])
        if b.op == "or":
            return z3.Or([self.boolean(x) for x in b.args])
        if b.op == "iff":
            return self.boolean(b.args[0]) == self.boolean(b.args[1])
        raise AssertionError(b.op)

    def touch(self, p):
        """make the atoms of p (its denominators) part of the query"""
        for m in p:
            for a, e in m:
                if ATOMS[a].kind == "den":
                    self.var(a)
                elif e < 0:
                    self.recip(a)

    def flush(self):
        """axioms of all atoms used so far"""
        while self.todo:
            at = self.todo.pop()
            self.axiom(at, self.v[at.aid])
            if self.pairs and at.kind in ("log10", "exp"):
                self.pair(at)
            elif at.kind == "uf" and len(at.args) == 3:
                self.congruent(at)
        return self.ax

    def congruent(self, at):
        """equal arguments, equal values"""
        name, index, args = at.args
        same = self.ufs.setdefault((name, index, len(args)), [])
        if len(same) >= 8 or not args or len(args) > 60:
            return
        for o in same:
            ne = [(p, q) for p, q in zip(args, o.args[2]) if p != q]
            if any(is_const(p) and is_const(q) for p, q in ne) or len(ne) > 12:
                continue
            self.ax.append(z3.Implies(z3.And([self.poly(p) == self.poly(q) for p, q in ne]), self.v[at.aid] == self.v[o.aid]))
        same.append(at)

    def pair(self, at):
        """logarithms and exponentials are monotone (|a|^i against |b|^j for small i, j)"""
        if len(self.logs) >= 6:
            return
        x, q = self.v[at.aid], self.poly(at.args[0])
        for o in self.logs:
            if o.kind != at.kind:
                continue
            y, r = self.v[o.aid], self.poly(o.args[0])
            if at.kind == "exp":
                self.ax.append((q < r) == (x < y))
                self.ax.append((q == r) == (x == y))
                continue
            for i, j in ((1, 1), (1, 2), (2, 1)):
                a = q * q if i == 2 else z3.If(q >= 0, q, -q)
                b = r * r if j == 2 else z3.If(r >= 0, r, -r)
                self.ax.append(z3.Implies(z3.And(q != 0, r != 0), z3.And((a < b) == (i * x < j * y), (a == b) == (i * x == j * y))))
        self.logs.append(at)

    def axiom(self, at, x):
        k = at.kind
        ax = self.ax
        if k == "var":
            if self.ints and at.args[0] == "i":
                ax.append(z3.IsInt(x))
            return
        box = enclosure(_closed_atom, at)
        if box is not None and k == "den" and box[0] * box[1] <= 0:
            box = None
        if box is not None:
            if k == "den":
                box = 1 / box[1], 1 / box[0]
            ax.append(x >= Q(box[0]))
            ax.append(x <= Q(box[1]))
            if k == "sqrt":
                ax.append(x * x == self.poly(at.args[0]))
            return
        if k == "den":
            ax.append(x * self.poly(at.args[0]) == 1)
        elif k == "sqrt":
            ax.append(x >= 0)
            ax.append(x * x == self.poly(at.args[0]))
        elif k == "abs":
            q = self.poly(at.args[0])
            ax.append(x == z3.If(q >= 0, q, -q))
        elif k == "sign":
            q = self.poly(at.args[0])
            ax.append(x == z3.If(q > 0, z3.RealVal(1), z3.If(q < 0, z3.RealVal(-1), z3.RealVal(0))))
        elif k == "ind":
            ax.append(x == z3.If(self.boolean(at.args[0]), z3.RealVal(1), z3.RealVal(0)))
        elif k == "max":
            qs = [self.poly(q) for q in at.args]
            for q in qs:
                ax.append(x >= q)
            ax.append(z3.Or([x == q for q in qs]))
        elif k == "exp":
            q = self.poly(at.args[0])
            ax.append(x > 0)
            ax.append((q > 0) == (x > 1))
            ax.append((q < 0) == (x < 1))
        elif k == "ln10":
            pass
        elif k == "log10":
            q = self.poly(at.args[0])
            ax.append(z3.Implies(z3.Or(q == 1, q == -1), x == 0))
            ax.append(z3.Implies(z3.Or(q > 1, q < -1), x > 0))
        elif k == "floor":
            q = self.poly(at.args[0])
            ax += [x <= q, q < x + 1, z3.IsInt(x)]
        elif k == "trunc":
            q = self.poly(at.args[0])
            ax += [z3.IsInt(x), z3.If(q >= 0, z3.And(x <= q, q < x + 1), z3.And(x >= q, q > x - 1))]
        elif k == "pow":
            ax.append(x >= 0)
            b, e = self.poly(at.args[0]), self.poly(at.args[1])
            ax.append(z3.Implies(b > 0, x > 0))
            ax.append(z3.Implies(b == 1, x == 1))
            ax.append(z3.Implies(z3.And(b == 0, e > 0), x == 0))
            ax.append(z3.Implies(e == 0, x == 1))
        elif k == "uf":
            if at.nonneg:
                ax.append(x >= 0)
        elif k == "inv":
            n, ps, i, j, sym = at.args
            key = ("inv", tuple(pkey(p) for p in ps))
            if key in self.v:
                return
            self.v[key] = True
            B = {}
            for at2 in ATOMS:
                if at2.kind == "inv" and at2.args[1] is ps or (at2.kind == "inv" and at2.args[0] == n and all(
                        pkey(a) == pkey(b) for a, b in zip(at2.args[1], ps))):
                    B[(at2.args[2], at2.args[3])] = self.var(at2.aid)
            g = lambda a, b: B[(min(a, b), max(a, b))] if sym else B[(a, b)]
            A = [[self.poly(ps[a * n + b]) for b in range(n)] for a in range(n)]
            for a in range(n):
                for b in range(n):
                    ax.append(z3.Sum([A[a][c] * g(c, b) for c in range(n)]) == (1 if a == b else 0))
                    if not sym:
                        ax.append(z3.Sum([g(a, c) * A[c][b] for c in range(n)]) == (1 if a == b else 0))
        elif k == "eig":
            n, ps, what = at.args[0], at.args[1], at.args[2]
            key = ("eig", tuple(pkey(p) for p in ps))
            if key in self.v:
                return
            self.v[key] = True
            val, vec = {}, {}
            for at2 in ATOMS:
                if at2.kind == "eig" and at2.args[0] == n and all(pkey(a) == pkey(b) for a, b in zip(at2.args[1], ps)):
                    if at2.args[2] == "val":
                        val[at2.args[3]] = self.var(at2.aid)
                    else:
                        vec[(at2.args[3], at2.args[4])] = self.var(at2.aid)
            A = [[self.poly(ps[a * n + b]) for b in range(n)] for a in range(n)]
            for i in range(n):
                for r in range(n):
                    ax.append(z3.Sum([A[r][c] * vec[(c, i)] for c in range(n)]) == val[i] * vec[(r, i)])
                ax.append(z3.Sum([vec[(r, i)] * vec[(r, i)] for r in range(n)]) == 1)
            if at.args[-1]:
                for i in range(n):
                    for j in range(i):
                        ax.append(z3.Sum([vec[(r, i)] * vec[(r, j)] for r in range(n)]) == 0)


def monotone(d, pc):
    """does the term contain several logarithms or exponentials?"""
    ids = {a for m in d for a, e in m if ATOMS[a].kind in ("log10", "exp")}
    return len(ids) > 1


def syn_pos(p, depth=0, positive=()):
    """a polynomial whose terms are all non-negative by their form, one of them positive"""
    if depth > 12 or not p:
        return False
    strict = False
    for m, c in p.items():
        if c < 0:
            return False
        st = True
        for a, e in m:
            at = ATOMS[a]
            k = at.kind
            if k == "exp" or k == "ln10" or (k == "var" and at in positive):
                continue
            if k == "den" and syn_pos(at.args[0], depth + 1, positive):
                continue
            if e % 2 == 0 or k in ("sqrt", "abs", "pow", "ind"):
                st = False
                continue
            return False
        strict = strict or st
    return strict


class AbsEnc(Enc):
    """atoms as free numbers of which only the sign is known (a weaker, hence sound, set of assumptions);
    a product of positive atoms is one positive number, a high or negative power of an atom a number of known sign"""

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            t = Q(c)
            pos, rest = [], []
            for a, e in m:
                at = ATOMS[a]
                if at.kind in ("exp", "ln10") or (at.kind == "den" and syn_pos(at.args[0])):
                    pos.append((a, e))
                else:
                    rest.append((a, e))
            if pos:
                t = t * self.named(("pos", tuple(pos)), lambda x: x > 0)
            for a, e in rest:
                if 0 < e <= 4:
                    for _ in range(e):
                        t = t * self.var(a)
                elif e % 2 == 0:
                    t = t * self.named(("even", a, e), lambda x: x >= 0)
                else:
                    t = t * self.named(("odd", a, e), lambda x: z3.And(x * self.var(a) >= 0, (x > 0) == (self.var(a) > 0)))
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def named(self, key, ax):
        x = self.v.get(key)
        if x is None:
            x = self.v[key] = z3.Real("m%d" % len(self.v))
            self.ax.append(ax(x))
        return x

    def axiom(self, at, x):
        k = at.kind
        if k == "exp" or k == "ln10":
            self.ax.append(x > 0)
        elif k in ("sqrt", "abs", "pow"):
            self.ax.append(x >= 0)
        elif k == "ind":
            self.ax.append(z3.Or(x == 0, x == 1))
        elif k == "den" and syn_pos(at.args[0]):
            self.ax.append(x > 0)


class LinEnc(AbsEnc):
    """as AbsEnc, with every product of several atoms a number of its own (linear arithmetic only)"""

    def poly(self, p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(Q(c))
            elif len(m) == 1 and m[0][1] == 1:
                ts.append(Q(c) * self.var(m[0][0]))
            else:
                even = all(e % 2 == 0 or ATOMS[a].kind in ("exp", "ln10", "sqrt", "abs", "pow", "ind") for a, e in m)
                ts.append(Q(c) * self.named(("mono", m), lambda x: x >= 0 if even else z3.BoolVal(True)))
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)


class Raw:
    """encoding of the operations exactly as executed"""

    def __init__(self):
        self.memo = {}
        self.keep = []
        self.ax = []
        self.n = 0
        self.limit = 6000
        self.uf = {}
        self.vars = {}

    def fn(self, name, k):
        f = self.uf.get((name, k))
        if f is None:
            f = self.uf[(name, k)] = z3.Function(name, *([z3.RealSort()] * (k + 1)))
        return f

    def atom(self, at):
        x = self.vars.get(at.aid)
        if x is None:
            x = self.vars[at.aid] = z3.Real("%s_%d" % (at.kind, at.aid))
            if at.kind == "uf" and at.nonneg:
                self.ax.append(x >= 0)
        return x

    def poly(self, p):
        ts = []
        for m, c in p.items():
            t = Q(c)
            for a, e in m:
                if ATOMS[a].kind not in ("var", "uf"):
                    raise TooBig("opaque")
                for _ in range(abs(e)):
                    t = t * self.atom(ATOMS[a]) if e > 0 else t / self.atom(ATOMS[a])
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def real(self, s):
        stack = [s]
        while stack:
            t = stack[-1]
            if id(t) in self.memo:
                stack.pop()
                continue
            pend = [a for a in t.args if isinstance(a, SReal) and id(a) not in self.memo] if not t.is_const() else []
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            self.n += 1
            if self.n > self.limit:
                raise TooBig("size")
            self.memo[id(t)] = self.node(t)
            self.keep.append(t)
        return self.memo[id(s)]

    def fresh(self, name):
        return z3.Real("%s!%d" % (name, self.n))

    def node(self, t):
        if t.is_const():
            return Q(t.const())
        op = t.op
        A = [self.memo[id(a)] for a in t.args if isinstance(a, SReal)]
        if op == "+":
            return A[0] + A[1]
        if op == "-":
            return A[0] - A[1]
        if op == "*":
            return A[0] * A[1]
        if op == "/":
            return A[0] / A[1]
        if op == "neg":
            return -A[0]
        if op == "id":
            return A[0]
        if op == "^":
            c = t.args[1]
            if abs(c) > 8:
                raise TooBig("power")
            r = z3.RealVal(1)
            for _ in range(abs(c)):
                r = r * A[0]
            return r if c >= 0 else 1 / r
        if op == "abs":
            return z3.If(A[0] >= 0, A[0], -A[0])
        if op == "sign":
            return z3.If(A[0] > 0, z3.RealVal(1), z3.If(A[0] < 0, z3.RealVal(-1), z3.RealVal(0)))
        if op == "sqrt":
            x = self.fresh("sqrt")
            self.ax += [x >= 0, x * x == A[0]]
            return x
        if op in ("exp", "tanh", "log10", "ln"):
            x = self.fn(op, 1)(A[0])
            if op == "exp":
                self.ax.append(x > 0)
            return x
        if op == "pow":
            return self.fn("pow", 2)(A[0], A[1])
        if op == "max":
            r = A[0]
            for a in A[1:]:
                r = z3.If(a > r, a, r)
            return r
        if op == "min":
            r = A[0]
            for a in A[1:]:
                r = z3.If(a < r, a, r)
            return r
        if op == "ind":
            return z3.If(self.boolean(t.args[0]), z3.RealVal(1), z3.RealVal(0))
        if op == "ite":
            return z3.If(self.boolean(t.args[0]), self.memo[id(t.args[1])], self.memo[id(t.args[2])])
        if op == "atom":
            at = t.args[0]
            if at.kind not in ("var", "uf"):
                raise TooBig("opaque")
            return self.atom(at)
        if op is None:
            return self.poly(t.p)
        raise TooBig(op)

    def boolean(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op == "cmp":
            x, y = self.real(b.args[1]), self.real(b.args[2])
            return x < y if b.args[0] == "lt" else x <= y if b.args[0] == "le" else x == y
        a = [self.boolean(x) for x in b.args]
        return {"not": lambda: z3.Not(a[0]), "and": lambda: z3.And(a), "or": lambda: z3.Or(a), "iff": lambda: a[0] == a[1]}[b.op]()


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ queries
def check(fs, timeout, want_model=False, tactic=None):
    """returns ('unsat'|'sat'|'unknown', model or None)"""
    t0 = time.time()
    s = z3.SolverFor("QF_NRA") if tactic == "nra" else (z3.Tactic(tactic).solver() if tactic else z3.Solver())
    s.set("timeout", int(timeout * 1000))
    s.set("random_seed", 1)
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.max_query = max(STATS.max_query, dt)
    res = str(r)
    setattr(STATS, res, getattr(STATS, res) + 1)
    if CROSS["on"] and res in ("unsat", "sat") and CROSS["budget"] > 0:
        cross(s, res)
    return res, (s.model() if res == "sat" and want_model else None)


def cross(s, res):
    """second opinion of cvc5 on the same assertions"""
    t0 = time.time()
    try:
        import cvc5
        smt = s.to_smt2()
        if "IsInt" in smt or "is_int" in smt and False:
            pass
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", "2000")
        slv.setLogic("ALL")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
        sm = parser.getSymbolManager()
        out = None
        while True:
            c = parser.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if "sat" in o or "unknown" in o:
                out = o.strip()
        if out in ("sat", "unsat"):
            if out == res:
                CROSS["agree"] += 1
            else:
                CROSS["disagree"].append((res, out, smt[:4000]))
        else:
            CROSS["unknown"] += 1
    except Exception as e:          # parser limits of the second solver
        CROSS["unknown"] += 1
    CROSS["time"] += time.time() - t0
    CROSS["budget"] -= time.time() - t0


def decide_formula(fs_canon, timeout):
    """fs_canon: function(Enc) -> list of formulas"""
    enc = Enc()
    fs = fs_canon(enc)
    fs = list(fs) + enc.flush()
    return check(fs, timeout)


def model_values(enc, model):
    """{var atom name: Fraction or int}"""
    out = {}
    for aid, x in enc.v.items():
        if not isinstance(aid, int) or ATOMS[aid].kind != "var":
            continue
        v = model.eval(x, model_completion=True)
        out[ATOMS[aid].name] = z3_frac(v)
    return out


def z3_frac(v):
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


class Num:
    """float evaluation of terms under an assignment of the variables"""

    def __init__(self, env):
        self.env = env
        self.c = {}

    def poly(self, p):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for a, e in m:
                w = self.atom(a)
                try:
                    v *= w ** e
                except (ZeroDivisionError, OverflowError):
                    raise EvalError
            t += v
        return t

    def atom(self, aid):
        r = self.c.get(aid)
        if r is None:
            try:
                r = self._atom(ATOMS[aid])
            except (ZeroDivisionError, OverflowError, ValueError):
                raise EvalError
            if r != r or r in (math.inf, -math.inf):
                raise EvalError
            self.c[aid] = r
        return r

    def _atom(self, at):
        k = at.kind
        if k == "var":
            if at.name not in self.env:
                raise EvalError
            return float(self.env[at.name])
        if k == "ind":
            return 1.0 if self.boolean(at.args[0]) else 0.0
        if k == "ln10":
            return math.log(10)
        if k in ("uf", "inv", "eig"):
            return self.matrix(at)
        if k == "pow":
            b, e = self.poly(at.args[0]), self.poly(at.args[1])
            return b ** e if b > 0 else 0.0 if b == 0 and e > 0 else 1.0 if e == 0 else self.bad()
        if k == "max":
            return max(self.poly(q) for q in at.args)
        q = self.poly(at.args[0])
        if k == "den":
            return q
        if k == "sqrt":
            if q < 0:
                if q > -1e-9:
                    return 0.0
                raise EvalError
            return math.sqrt(q)
        if k == "abs":
            return abs(q)
        if k == "sign":
            return float((q > 0) - (q < 0))
        if k == "exp":
            return math.exp(q)
        if k == "log10":
            return math.log10(abs(q))
        if k == "floor":
            return float(math.floor(q))
        if k == "trunc":
            return float(math.trunc(q))
        raise EvalError

    def bad(self):
        raise EvalError

    def matrix(self, at):
        import numpy as np
        if at.kind == "eig":
            n, ps, what = at.args[:3]
            key = ("eig", id(ps))
            M = self.c.get(key)
            if M is None:
                try:
                    M = np.linalg.eig(np.array([self.poly(p) for p in ps]).reshape(n, n))
                except np.linalg.LinAlgError:
                    raise EvalError
                if np.iscomplexobj(M[0]) and np.max(np.abs(M[0].imag)) > 1e-9:
                    raise EvalError
                M = self.c[key] = (np.real(M[0]), np.real(M[1]))
            return float(M[0][at.args[3]]) if what == "val" else float(M[1][at.args[3], at.args[4]])
        if at.kind == "uf" and at.args[0] in NARROW:
            return float(np.dtype(at.args[0]).type(float(self.poly(at.args[2][0]))))
        if at.kind != "inv":
            raise EvalError
        n, ps, i, j, sym = at.args
        key = ("inv", id(ps))
        M = self.c.get(key)
        if M is None:
            M = np.array([self.poly(p) for p in ps]).reshape(n, n)
            try:
                M = np.linalg.inv(M)
            except np.linalg.LinAlgError:
                raise EvalError
            self.c[key] = M
        return float(M[i, j])

    def boolean(self, b):
        if isinstance(b, bool):
            return b
        if b.op == "cmp":
            d = self.poly(psub(b.args[2].p, b.args[1].p))
            return d > 0 if b.args[0] == "lt" else d >= 0 if b.args[0] == "le" else abs(d) < 1e-12
        a = b.args
        if b.op == "not":
            return not self.boolean(a[0])
        if b.op == "and":
            return all(self.boolean(x) for x in a)
        if b.op == "or":
            return any(self.boolean(x) for x in a)
        return self.boolean(a[0]) == self.boolean(a[1])


class NumHP(Num):
    """the same with 80 digits: differences that survive are no rounding"""

    def __init__(self, env):
        import mpmath
        self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
        self.mp.dps = 80
        super().__init__(env)

    def num(self, c):
        c = Fraction(c)
        return self.mp.mpf(c.numerator) / c.denominator

    def poly(self, p):
        t = self.mp.mpf(0)
        for m, c in p.items():
            v = self.num(c)
            for a, e in m:
                w = self.atom(a)
                if e < 0 and w == 0:
                    raise EvalError
                v *= w ** e
            t += v
        return t

    def atom(self, aid):
        r = self.c.get(aid)
        if r is None:
            try:
                r = self._atom(ATOMS[aid])
            except (ZeroDivisionError, OverflowError, ValueError):
                raise EvalError
            self.c[aid] = r
        return r

    def _atom(self, at):
        k, mp = at.kind, self.mp
        if k == "var":
            if at.name not in self.env:
                raise EvalError
            return self.num(self.env[at.name])
        if k == "ind":
            return mp.mpf(1 if self.boolean(at.args[0]) else 0)
        if k == "ln10":
            return mp.ln10
        if k == "max":
            return max(self.poly(q) for q in at.args)
        if k in ("den", "abs", "sign", "sqrt", "exp", "log10", "floor", "trunc"):
            q = self.poly(at.args[0])
            if k == "den":
                return q
            if k == "abs":
                return abs(q)
            if k == "sign":
                return mp.sign(q)
            if k == "exp":
                if abs(q) > 10**6:
                    raise EvalError
                return mp.exp(q)
            if k == "floor":
                return mp.floor(q)
            if k == "trunc":
                return mp.floor(q) if q >= 0 else mp.ceil(q)
            if k == "sqrt":
                if q < 0:
                    raise EvalError
                return mp.sqrt(q)
            if q == 0:
                raise EvalError
            return mp.log10(abs(q))
        if k == "pow":
            b, e = self.poly(at.args[0]), self.poly(at.args[1])
            return b ** e if b > 0 else mp.mpf(0) if b == 0 and e > 0 else mp.mpf(1) if e == 0 else self.bad()
        if k == "inv":
            n, ps, i, j, _ = at.args
            key = ("inv", id(ps))
            M = self.c.get(key)
            if M is None:
                try:
                    M = self.c[key] = mp.matrix([[self.poly(ps[r * n + c]) for c in range(n)] for r in range(n)]) ** -1
                except ZeroDivisionError:
                    raise EvalError
            return M[i, j]
        raise EvalError

    def boolean(self, b):
        if isinstance(b, SBool) and b.op == "cmp" and b.args[0] == "eq":
            return abs(self.poly(psub(b.args[2].p, b.args[1].p))) < self.mp.mpf(10) ** -40
        return super().boolean(b)


# ------------------------------------------------------------------ witness search
def free_vars(fs):
    """variable atoms of SReal / SBool / polynomials, transitively"""
    out, seen, todo = set(), set(), []

    def poly(p):
        for m in p:
            for a, _ in m:
                if a not in seen:
                    seen.add(a)
                    todo.append(ATOMS[a])

    def boolean(b):
        if isinstance(b, bool):
            return
        for x in b.args:
            if isinstance(x, SReal):
                poly(x.p)
            elif isinstance(x, SBool):
                boolean(x)
    for f in fs:
        if isinstance(f, SReal):
            poly(f.p)
        elif isinstance(f, SBool):
            boolean(f)
        elif isinstance(f, dict):
            poly(f)
    while todo:
        at = todo.pop()
        if at.kind == "var":
            out.add(at)
            continue
        for x in at.args:
            if isinstance(x, dict):
                poly(x)
            elif isinstance(x, SBool):
                boolean(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, dict):
                        poly(y)
    return out


NICE = [Fraction(k, 8) for k in range(-24, 25) if k]


def random_env(vars_, rnd, spread=1):
    env = {}
    for at in vars_:
        if len(at.args) == 3:
            lo, hi = at.args[1:]
            env[at.name] = Fraction(rnd.randint(lo, hi) if rnd.random() < 0.7 else max(lo, min(hi, rnd.randint(-4, 4))))
        elif at.args[0] == "i":
            env[at.name] = Fraction(rnd.randint(-4 * spread, 4 * spread))
        else:
            env[at.name] = rnd.choice(NICE) * spread
    return env


def holds(num, pc):
    try:
        return all(num.boolean(b) for b in pc)
    except EvalError:
        return False


def mentions(fs, kind):
    """does an atom of that kind occur in the conditions (at their surface)?"""
    todo = list(fs)
    while todo:
        b = todo.pop()
        if isinstance(b, SBool):
            todo.extend(b.args)
        elif isinstance(b, SReal):
            for m in b.p:
                if any(ATOMS[a].kind == kind for a, _ in m):
                    return True
    return False


def sample_env(pc, all_vars, seed=0, tries=200, timeout=3.0, positive=(), box=None, extra=None, target=None, rounds=6):
    """an assignment satisfying the path condition pc (numerically checked), or None.
    target: optional function(Num) -> bool that must hold too"""
    rnd = random.Random(seed)
    all_vars = sorted(all_vars, key=lambda a: a.aid)
    # sign facts make random draws succeed more often
    t0 = time.time()
    for t in range(tries):
        env = random_env(all_vars, rnd, 1 if t % 3 else 2)
        for at in positive:
            env[at.name] = abs(env.get(at.name, Fraction(1)))
        n = Num(env)
        if holds(n, pc):
            try:
                if target is None or target(n):
                    return env
            except EvalError:
                pass
        if time.time() - t0 > timeout:
            break
    if mentions(pc, "eig"):
        rounds = 0
    # ask the solver, with some variables pinned to random values
    for t in range(rounds):
        enc = Enc(ints=True)
        fs = [enc.boolean(b) for b in pc]
        for f in (extra(enc) if extra else []):
            fs.append(f)
        env = random_env(all_vars, rnd)
        for at in positive:
            env[at.name] = abs(env[at.name])
        frac = (0.9, 0.75, 0.5, 0.25, 0.1, 0.0)[min(t, 5)]
        pins = []
        for at in all_vars:
            x = enc.var(at.aid)
            fs.append(z3.And(x >= -8, x <= 8) if at.args[0] != "i" else z3.And(x >= -1000, x <= 1000) if len(at.args) < 3
                      else z3.And(x >= at.args[1], x <= at.args[2]))
            if rnd.random() < frac:
                pins.append(x == Q(env[at.name]))
        r, m = check(fs + pins + enc.flush(), timeout / 2, True)
        if r == "sat":
            e2 = dict(env)
            e2.update(model_values(enc, m))
            n = Num(e2)
            try:
                if holds(n, pc) and (target is None or target(n)):
                    return e2
            except EvalError:
                pass
            if target is None and t >= 3:
                return e2
    return None
