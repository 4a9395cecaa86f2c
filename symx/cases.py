"""Equalities over absolute values, signs, indicators and maxima: decided by splitting on the signs of their arguments.

In each case the term is rebuilt with the signs known there; what is left is a rational function of variables and
exponentials, which is zero when its numerator is (clear_denominators), or a question for the solver."""
import time
from fractions import Fraction

import z3

from . import solve, terms
from .solve import STATS, Enc, LinEnc
from .terms import (ATOMS, ONE_M, Ctx, SBool, SReal, clear_denominators, const_val, is_const, lead, padd, pconst, pexp, pkey, pmul,
                    pneg, ppow, precip, pscale, psub, sand, scmp, siff, snot, sor)

SPLIT = ("abs", "sign", "ind", "max")


class GiveUp(Exception):
    pass


def mentioned(p, out=None, depth=0):
    """kinds of the atoms a term is made of"""
    out = {} if out is None else out
    todo = [p]
    while todo:
        for m in todo.pop():
            for a, _ in m:
                if a in out:
                    continue
                out[a] = True
                todo.extend(parts(ATOMS[a]))
    return out


def bool_polys(b):
    if isinstance(b, bool):
        return []
    if b.op == "cmp":
        return [psub(b.args[1].p, b.args[2].p)]
    return [q for x in b.args for q in bool_polys(x)]


def parts(at):
    k = at.kind
    if k in ("abs", "sign", "max", "exp", "den", "sqrt", "log10", "floor", "trunc"):
        return [q for q in at.args if isinstance(q, dict)]
    if k == "ind":
        return bool_polys(at.args[0])
    if k == "uf":
        return list(at.args[2]) if len(at.args) == 3 else []
    return []


KEEP = ("var", "ln10")
REBUILT = ("abs", "sign", "max", "exp", "den", "sqrt", "log10", "ind", "uf")


class Case:
    def __init__(self, signs, subst, facts, cons):
        self.signs, self.subst, self.facts, self.cons = signs, subst, facts, cons
        self.memo = {}

    # ------------------------------------------------ signs
    def sgn(self, q):
        """-1, 0, 1 or None"""
        if is_const(q):
            c = const_val(q)
            return (c > 0) - (c < 0)
        c = q[lead(q)]
        s = self.signs.get(pkey(pscale(q, Fraction(1) / c)))
        if s is not None:
            return s if c > 0 else -s
        if len(q) == 1:
            (m, c), = q.items()
            r = 1 if c > 0 else -1
            for a, e in m:
                s = self.atom_sign(a)
                if s is None:
                    return None
                r *= s if e % 2 else s * s
            return r
        r = 0
        for m, c in q.items():
            s = self.sgn({m: c})
            if s is None:
                if any(e % 2 and not ATOMS[a].nonneg and ATOMS[a].kind != "exp" for a, e in m):
                    return None
                s = 2 if c > 0 else -2              # not of the other sign
            if s:
                t = 1 if s > 0 else -1
                if r and (r > 0) != (t > 0):
                    return None
                r = t if abs(s) == 1 or abs(r) == 1 else s if not r else r
        return r if abs(r) < 2 else None

    def atom_sign(self, a):
        at = ATOMS[a]
        k = at.kind
        if k in ("exp", "ln10"):
            return 1
        if k in ("abs", "sqrt"):
            s = self.sgn(at.args[0])
            return None if s is None else abs(s)
        if k == "den":
            return self.sgn(at.args[0])
        if k == "sign":
            return self.sgn(at.args[0])
        s = self.signs.get(pkey({((a, 1),): 1}))
        return s

    # ------------------------------------------------ rebuilding
    def poly(self, p):
        r = {}
        for m, c in p.items():
            t = {ONE_M: c}
            plain = []
            for a, e in m:
                q = self.atom(a)
                if q is None:
                    plain.append((a, e))
                    continue
                if ATOMS[a].kind == "den":
                    t = pmul(t, ppow(q, -e))        # q is the reciprocal
                    continue
                if e < 0 and not q:
                    raise GiveUp
                t = pmul(t, ppow(q, e))
            if plain:
                t = pmul(t, {tuple(plain): 1})
            r = padd(r, t)
            if len(r) > 20000:
                raise GiveUp
        return r

    def atom(self, a):
        """the term for atom a in this case; None when it stays as it is (for dens: the reciprocal)"""
        try:
            return self.memo[a]
        except KeyError:
            pass
        r = self._atom(ATOMS[a])
        self.memo[a] = r
        return r

    def _atom(self, at):
        k = at.kind
        if k == "var":
            return self.subst.get(at.aid)
        if k not in REBUILT:
            if self.subst or k != "ln10":
                if k != "ln10":
                    raise GiveUp
            return None
        if k == "ind":
            b = self.boolean(at.args[0])
            return terms.sind(b).p if isinstance(b, bool) or b is not at.args[0] else None
        old = parts(at)
        new = [self.poly(q) for q in old]
        same = all(pkey(x) == pkey(y) for x, y in zip(old, new))
        if k in ("abs", "sign"):
            s = self.sgn(new[0])
            if s is not None:
                return pconst(s) if k == "sign" else pscale(new[0], s) if s else {}
            return None if same else (terms.pabs if k == "abs" else terms.psign)(new[0])
        if k == "max":
            keep = list(new)
            for x in list(keep):
                for y in keep:
                    if y is not x and self.sgn(psub(y, x)) in (0, 1):
                        keep = [z for z in keep if z is not x]
                        break
            if len(keep) == 1:
                return keep[0]
            return None if same and len(keep) == len(new) else terms.smax(*[SReal(q) for q in keep]).p
        if k == "den":
            if same:
                return None
            if not new[0]:
                raise GiveUp
            return precip(new[0])
        if same:
            return None
        if k == "exp":
            return pexp(new[0])
        if k == "sqrt":
            return terms.psqrt(new[0])
        if k == "log10":
            if not new[0]:
                raise GiveUp
            return terms._plog(new[0])
        if k == "uf":
            return terms.uf(at.args[0], *[SReal(q) for q in new], nonneg=at.nonneg, index=at.args[1]).p
        raise GiveUp

    def boolean(self, b):
        if isinstance(b, bool):
            return b
        if b.op == "cmp":
            rel, x, y = b.args
            o = psub(x.p, y.p)
            q = self.poly(o)
            s = self.sgn(q)
            if s is not None:
                return s < 0 if rel == "lt" else s <= 0 if rel == "le" else s == 0
            return b if pkey(q) == pkey(o) else scmp(rel, SReal(q), terms.ZERO)
        new = [self.boolean(x) for x in b.args]
        if all(x is y for x, y in zip(new, b.args)):
            return b
        return {"not": snot, "and": sand, "or": sor, "iff": siff}[b.op](*new)

    def stable(self, p):
        r = self.poly(p)
        for _ in range(4):                      # the sign of a product may be known in part
            r, old = self.poly(r), r
            if r == old:
                break
        return r

    def condition(self, b):
        for _ in range(4):
            b, old = self.boolean(b), b
            if b is old:
                break
        return b

    # ------------------------------------------------ splitting
    def next_split(self, p):
        """a polynomial of unknown sign on which an innermost special atom depends"""
        seen = {}

        def rec(p):
            for m in p:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen[a] = True
                    at = ATOMS[a]
                    for q in parts(at):
                        r = rec(q)
                        if r is not None:
                            return r
                    if at.kind in ("abs", "sign"):
                        return at.args[0]
                    if at.kind == "ind":
                        for q in bool_polys(at.args[0]):
                            if self.sgn(q) is None:
                                return q
                    if at.kind == "max":
                        return psub(at.args[0], at.args[1])
            return None
        return rec(p)

    def with_sign(self, q, s):
        """the cases (list) refining this one where q has sign s; None: contradiction"""
        out = []
        if s == 0:
            vs = _vanish(q)
            if vs:
                for v, val in vs:
                    c = Case({}, dict(self.subst), [], list(self.cons) + [(q, 0)])
                    one = Case({}, {v: val}, [], [])
                    c.subst = {k: one.poly(x) for k, x in self.subst.items()}
                    c.subst[v] = val
                    if c.add([(one.poly(f), t) for f, t in self.facts]):
                        out.append(c)
                return out
        c = Case(dict(self.signs), dict(self.subst), list(self.facts), list(self.cons))
        if c.add([(q, s)]):
            out.append(c)
        return out

    def add(self, facts):
        for q, s in facts:
            t = self.sgn(q)
            if t is not None:
                if t != s:
                    return False
                continue
            self.facts.append((q, s))
            self.cons.append((q, s))
            c = q[lead(q)]
            n = pscale(q, Fraction(1) / c)
            self.signs[pkey(n)] = s if c > 0 else -s
        return True


def _vanish(q):
    """q = 0 as (alternative) substitutions of a variable"""
    if len(q) == 1:
        (m, _), = q.items()
        if all(ATOMS[a].kind in ("var", "exp", "den") for a, _ in m):
            return [(a, {}) for a, e in m if ATOMS[a].kind == "var" and e > 0]
        return None
    inside = {}
    for m in q:
        for a, e in m:
            if ATOMS[a].kind != "var":
                for x in parts(ATOMS[a]):
                    mentioned(x, inside)
    for m, c in q.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "var":
            a = m[0][0]
            if a in inside or any(a == b for m2 in q if m2 != m for b, _ in m2):
                continue
            rest = {m2: v for m2, v in q.items() if m2 != m}
            return [(a, pscale(rest, Fraction(-1) / c))]
    return None


def seeds(pc):
    out = []
    for b in pc:
        neg = False
        while b.op == "not":
            b, neg = b.args[0], not neg
        if b.op != "cmp":
            continue
        rel, x, y = b.args
        q = psub(y.p, x.p)
        if rel == "lt" and not neg:
            out.append((q, 1))
        elif rel == "le" and neg:
            out.append((q, -1))
        elif rel == "eq" and not neg:
            out.append((q, 0))
    return out


def decide_zero(d, pc, dens, seconds=4.0, leaves=300):
    """True: d is zero whenever pc holds; None: not decided"""
    eng = Ctx.engine
    ids = mentioned(d)
    if not any(ATOMS[a].kind in SPLIT for a in ids) or any(ATOMS[a].kind not in REBUILT + KEEP for a in ids):
        return None
    end = time.time() + seconds
    Ctx.engine = None
    try:
        start = [Case({}, {}, [], [])]
        for q, s in seeds(pc):
            if any(ATOMS[a].kind not in REBUILT + KEEP for a in mentioned(q)):
                continue
            start = [c2 for c in start for c2 in c.with_sign(c.poly(q), s)]
            if len(start) > 8:
                return None
        todo = [(c, d) for c in start]
        n = 0
        while todo:
            if time.time() > end or n > leaves:
                return None
            c, r = todo.pop()
            r = c.stable(r)
            if not r:
                n += 1
                STATS.cleared += 1
                continue
            q = c.next_split(r)
            if q is None:
                n += 1
                k = clear_denominators(r, 4000)
                if k is not None and not k:
                    STATS.cleared += 1
                    continue
                pcr = [c.condition(b) for b in pc]
                if any(b is False for b in pcr):
                    continue
                pcr = [b for b in pcr if b is not True]
                for b in pcr:
                    for x in bool_polys(b):
                        q = q or c.next_split(x)
                if q is None:
                    if not leaf(r, k, c, pcr, dens):
                        return None
                    continue
            if c.sgn(q) is not None:
                return None                 # should have been used up
            sub = {}
            for s in (0, -1, 1):
                sub[s] = [(c2, c2.stable(r)) for c2 in c.with_sign(q, s)
                          if c2.subst.keys() != c.subst.keys() or possible(c2, pc)]
            if len(sub[1]) == len(sub[-1]) == 1 and sub[1][0][1] == sub[-1][0][1] and sub[1][0][1] != r:
                # the sign does not matter any more: prove it for both at once
                r2 = sub[1][0][1]
                todo.append((c, r2))
                todo.extend((c2, r3) for c2, r3 in sub[0] if c2.stable(r2) != r3)
            else:
                for s in (0, -1, 1):
                    todo.extend(sub[s])
        return True
    except (GiveUp, terms.Unsupported, ZeroDivisionError, RecursionError):
        return None
    finally:
        Ctx.engine = eng


def rel(e, s):
    return e == 0 if s == 0 else e > 0 if s > 0 else e < 0


def possible(c, pc):
    lin = LinEnc()
    fs = [lin.boolean(b) for b in pc] + [rel(lin.poly(q), s) for q, s in c.cons]
    return solve.check(fs + lin.flush(), 0.3)[0] != "unsat"


def leaf(r, k, c, pc, dens):
    enc = Enc()
    fs = [enc.boolean(b) for b in pc] + [enc.poly(q) != 0 for q in dens] + [rel(enc.poly(q), s) for q, s in c.cons]
    if k is not None:
        enc.touch(r)
        fs.append(enc.poly(k) != 0)
    else:
        fs.append(enc.poly(r) != 0)
    return solve.check(fs + enc.flush(), 1.5)[0] == "unsat"
