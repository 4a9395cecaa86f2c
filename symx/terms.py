"""Terms of the symbolic executor.

A scalar is an SReal.  It carries two descriptions of the same value:
  * .p   : canonical form, a Laurent polynomial with rational coefficients over *atoms*
           (input variables, denominators, square roots, absolute values, exponentials ...).
           Atoms are hash-consed on the canonical form of their arguments, so equal
           computations meet in the same atom.
  * .op/.args : the operation exactly as the executed code performed it ("raw" DAG).
The solver is asked on the raw DAG first, and on the canonical form when the raw query is not
decided within its time slice (see solve.py).

Arithmetic is exact rational/real arithmetic: rounding, overflow, NaN and infinities of the
IEEE doubles numpy computes with are outside the model.
"""
from fractions import Fraction
import functools
import math
import numbers
import sys

import numpy as _np

Rational = numbers.Rational


class Unsupported(Exception):
    """The executor cannot encode what the code does (never evidence of a defect)."""


class Impossible(Exception):
    """these branches cannot be merged"""


class PathEnd(BaseException):
    """This path is finished early (infeasible assumption, undefined operation)."""


class Ctx:
    """Mutable globals of one exploration; engine is set by engine.py."""
    engine = None
    repo = None


def fail(msg):
    e = Unsupported(msg)
    if Ctx.engine is not None:
        Ctx.engine.note_unsupported(e)
    raise e


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("aid", "kind", "args", "name", "nonneg", "special", "logi")

    def __init__(self, aid, kind, args, name, nonneg=False, special=False):
        self.aid, self.kind, self.args, self.name = aid, kind, args, name
        self.nonneg, self.special = nonneg, special
        self.logi = None        # for den atoms of the form 1 + M, M a product of exponentials: M

    def __repr__(self):
        return self.name


ATOMS = []
_ATOM_KEY = {}
_SQUARE = {}          # key of p*p -> p


def reset_terms():
    del ATOMS[:]
    _ATOM_KEY.clear()
    _SQUARE.clear()
    _TANH_SEEN.clear()


_TANH_SEEN = {}


def atom(kind, key, args, name=None, nonneg=False, special=False):
    k = (kind, key)
    a = _ATOM_KEY.get(k)
    if a is None:
        aid = len(ATOMS)
        a = Atom(aid, kind, args, name or "%s!%d" % (kind, aid), nonneg, special)
        ATOMS.append(a)
        _ATOM_KEY[k] = a
    return a


# ---------------------------------------------------------------- polynomials (plain dicts)
ONE_M = ()
P0 = {}


def nc(c):
    """normalise a coefficient"""
    if c.__class__ is Fraction and c.denominator == 1:
        return c.numerator
    return c


def pconst(c):
    return {ONE_M: c} if c else {}


def pkey(p):
    return frozenset(p.items())


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = o + c
            if s:
                r[m] = nc(s)
            else:
                del r[m]
    return r


def pscale(p, c):
    if not c:
        return {}
    if c == 1:
        return p
    return {m: nc(v * c) for m, v in p.items()}


def pneg(p):
    return {m: -v for m, v in p.items()}


def psub(p, q):
    return padd(p, pneg(q))


def mmul(a, b):
    """product of monomials; second result tells whether special atoms need reduction"""
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                r.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def _divides(M, m):
    """1 if every exponential of M occurs in m with at least M's exponent, -1 for 1/M, else 0"""
    d = dict(m)
    if all(a in d and (d[a] >= e if e > 0 else d[a] <= e) for a, e in M):
        return 1
    if all(a in d and (d[a] <= -e if e > 0 else d[a] >= -e) for a, e in M):
        return -1
    return 0


def _needs_reduce(m):
    for aid, e in m:
        at = ATOMS[aid]
        if at.special:
            k = at.kind
            if k == "den":
                if e > 0 or (at.logi is not None and _divides(at.logi, m)):
                    return True
            elif k == "sqrt" or k == "abs":
                if e >= 2 or e <= -2:
                    return True
            elif k == "ind" or k == "sign":
                if e >= 2 or e < 0:
                    return True
    return False


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return pscale(q, c)
    if len(q) == 1:
        (m, c), = q.items()
        if not m:
            return pscale(p, c)
    r = {}
    extra = None
    eng = Ctx.engine
    for m1, c1 in p.items():
        if eng is not None:
            eng.tick(len(q) + len(m1))
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            c = c1 * c2
            if m and _needs_reduce(m):
                e = reduce_mono(m, c)
                extra = e if extra is None else padd(extra, e)
                continue
            o = r.get(m)
            if o is None:
                r[m] = nc(c)
            else:
                s = o + c
                if s:
                    r[m] = nc(s)
                else:
                    del r[m]
    if extra is not None:
        r = padd(r, extra)
    if len(r) > 60000:
        fail("term too large")
    return r


def reduce_mono(m, c):
    """rewrite powers of special atoms"""
    for aid, e in m:
        at = ATOMS[aid]
        if at.logi is not None and e < 0:
            # partial fractions: M/(1+M) = 1 - 1/(1+M), 1/(M(1+M)) = 1/M - 1/(1+M)
            s = _divides(at.logi, m)
            if s:
                Mi = tuple((a, -s * k) for a, k in at.logi)
                up = mmul(m, ((aid, 1),))            # x * M^s * D^(e+1)
                r = {}
                a1 = mmul(m, Mi)                     # x * D^e
                if s > 0:                            # x*M/D = x - x/D
                    parts = ((mmul(a1, ((aid, 1),)), c), (a1, -c))
                else:                                # x/(M D) = x/M - x/D
                    parts = ((up, c), (a1, -c))
                for q, v in parts:
                    t = reduce_mono(q, v) if _needs_reduce(q) else {q: v}
                    r = padd(r, t)
                return r
    rest = []
    out = {ONE_M: c}
    for aid, e in m:
        at = ATOMS[aid]
        k = at.kind
        if not at.special:
            rest.append((aid, e))
        elif k == "den" and e > 0:
            out = pmul(out, ppow(at.args[0], e))
        elif k == "sqrt" and (e >= 2 or e <= -2):
            h = e // 2 if e > 0 else -((-e) // 2)
            out = pmul(out, ppow(at.args[0], h))
            e -= 2 * h
            if e:
                rest.append((aid, e))
        elif k == "abs" and (e >= 2 or e <= -2):
            h = e // 2 if e > 0 else -((-e) // 2)
            out = pmul(out, ppow(at.args[0], 2 * h))
            e -= 2 * h
            if e:
                rest.append((aid, e))
        elif k == "ind" and e >= 2:
            rest.append((aid, 1))
        elif k == "sign" and e >= 3:
            rest.append((aid, 2 - e % 2))
        else:
            rest.append((aid, e))
    rest = tuple(rest)
    if rest:
        # multiply without re-reducing the same monomial for ever: rest has no reducible power left
        # (sign^2, ind^-k stay)
        r = {}
        for m2, c2 in out.items():
            mm = mmul(rest, m2)
            if m2 and mm != rest and _needs_reduce2(mm):
                for k3, v3 in reduce_mono(mm, c2).items():
                    r[k3] = r.get(k3, 0) + v3
            else:
                r[mm] = r.get(mm, 0) + c2
        return {k3: nc(v3) for k3, v3 in r.items() if v3}
    return out


def _needs_reduce2(m):
    for aid, e in m:
        at = ATOMS[aid]
        if at.special:
            k = at.kind
            if k == "den" and (e > 0 or (at.logi is not None and _divides(at.logi, m))):
                return True
            if k in ("sqrt", "abs") and (e >= 2 or e <= -2):
                return True
            if k == "ind" and e >= 2:
                return True
            if k == "sign" and e >= 3:
                return True
    return False


def ppow(p, n):
    if n == 0:
        return {ONE_M: 1}
    if n < 0:
        return ppow(precip(p), -n)
    r = None
    b = p
    while n:
        if n & 1:
            r = b if r is None else pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def lead(p):
    """canonical leading monomial"""
    return max(p)


def is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def const_val(p):
    return p.get(ONE_M, 0)


def split_content(p):
    """p = c * mono * p' with p' having leading coefficient 1 and no common monomial"""
    common = None
    for m in p:
        if common is None:
            common = dict(m)
        else:
            d = dict(m)
            common = {a: (min(e, d[a]) if (e > 0) == (d[a] > 0) and e > 0 else max(e, d[a]))
                      for a, e in common.items()
                      if a in d and (e > 0) == (d[a] > 0)}
        if not common:
            break
    mono = tuple(sorted(common.items())) if common else ONE_M
    if mono:
        inv = tuple((a, -e) for a, e in mono)
        p = {mmul(m, inv): c for m, c in p.items()}
    c = p[lead(p)]
    if c != 1:
        ic = Fraction(1) / c
        p = {m: nc(v * ic) for m, v in p.items()}
    return c, mono, p


def _logistic(p):
    """1/p for p = c*x*(1+M) with M a product of exponentials: over the one atom D = 1+M"""
    (m1, c1), (m2, c2) = p.items()
    if c1 != c2:
        return None
    M = mmul(m2, tuple((a, -e) for a, e in m1))
    if not M or any(ATOMS[a].kind != "exp" for a, _ in M):
        return None
    if M[0][1] < 0:
        M, m1 = tuple((a, -e) for a, e in M), m2
    d = atom("den", pkey({ONE_M: 1, M: 1}), ({ONE_M: 1, M: 1},), nonneg=True, special=True)
    d.logi = M
    return pmul({((d.aid, -1),): nc(Fraction(1) / c1)}, precip({m1: 1}))


def precip(p):
    """1/p (p assumed non-zero; the caller has recorded that)"""
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return {ONE_M: nc(Fraction(1) / c)}
        r = {tuple((a, -e) for a, e in m): nc(Fraction(1) / c)}
        (m2, c2), = r.items()
        if _needs_reduce(m2):
            # ind/sign with negative exponent cannot be reduced; den with positive can
            return reduce_mono(m2, c2)
        return r
    if len(p) == 2:
        r = _logistic(p)
        if r is not None:
            return r
    c, mono, q = split_content(p)
    d = atom("den", pkey(q), (q,), special=True)
    r = {((d.aid, -1),): nc(Fraction(1) / c)}
    if mono:
        r = pmul(r, {tuple((a, -e) for a, e in mono): 1})
    return r


# ---------------------------------------------------------------- scalars
def to_coef(x):
    """number -> exact coefficient"""
    if x is True or x is False:
        return int(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, Fraction):
        return nc(x)
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        f = float(x)
        if f != f or f in (math.inf, -math.inf):
            fail("non-finite number in the computation")
        return nc(Fraction(repr(f)))      # decimal reading: 0.1 is 1/10
    if isinstance(x, _np.bool_):
        return int(x)
    raise TypeError("not a number: %r" % (x,))


def nonfinite(x):
    return isinstance(x, (float, _np.floating)) and (x != x or x in (math.inf, -math.inf))


def nf_cmp(rel, a, b):
    """comparison with an infinity or NaN; every real number lies between the infinities"""
    a, b = [float(v) if nonfinite(v) else 0.0 for v in (a, b)]
    return a < b if rel == "lt" else a <= b if rel == "le" else a == b


def nf_apply(op, *xs):
    """IEEE arithmetic with at least one infinity or NaN among the operands; symbolic operands are finite reals"""
    if any(nonfinite(x) and x != x for x in xs):
        return math.nan
    if op == "neg":
        return -float(xs[0])
    if op == "abs":
        return math.inf
    a, b = xs
    if nonfinite(a) and nonfinite(b):
        a, b = _np.float64(a), _np.float64(b)
        with _np.errstate(all="ignore"):
            return float(a + b if op == "add" else a - b if op == "sub" else a * b if op == "mul" else a / b)
    if op == "add":
        return float(a if nonfinite(a) else b)
    if op == "sub":
        return float(a) if nonfinite(a) else -float(b)
    if op == "div" and nonfinite(b):
        return ZERO
    i, x = (float(a), lift(b)) if nonfinite(a) else (float(b), lift(a))
    for rel, r in ((scmp("lt", ZERO, x), i), (scmp("lt", x, ZERO), -i)):
        if rel if isinstance(rel, bool) else bool(rel):
            return r
    return math.nan if op == "mul" else i


NUM = (int, float, Fraction, _np.integer, _np.floating, _np.bool_)


def lift(x):
    """any scalar -> SReal, or None"""
    if x.__class__ is SReal:
        return x
    if isinstance(x, SBool):
        return x.as_real()
    if isinstance(x, NUM):
        c = to_coef(x)
        return SReal(pconst(c), "f" if isinstance(x, (float, _np.floating, Fraction)) and not isinstance(x, int) else "i")
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def in_repo_code():
    f = sys._getframe(1)
    repo = Ctx.repo
    if repo is None:
        return False
    while f is not None:
        if f.f_code.co_filename.startswith(repo):
            return True
        f = f.f_back
    return False


def note_den(x):
    """x (SReal, not constant) is used as a denominator"""
    if Ctx.engine is not None:
        Ctx.engine.note_denominator(x, in_repo_code())


def nonneg_form(x):
    """non-negative for every value of the variables by the form of the term (sums and products of squares ...)"""
    todo, n = [x], 0
    while todo:
        t = todo.pop()
        n += 1
        if n > 20000:
            return False
        if t.is_const():
            if t.const() < 0:
                return False
            continue
        if all(c > 0 and all(e % 2 == 0 or ATOMS[a].nonneg or ATOMS[a].kind == "exp" for a, e in m) for m, c in t.p.items()):
            continue
        op, args = t.op, t.args
        if op == "^" and isinstance(args[1], int) and args[1] % 2 == 0:
            continue
        if op == "*" and (args[0] is args[1] or args[0].p == args[1].p):
            continue
        if op in ("abs", "sqrt", "exp", "pow"):
            continue
        if op in ("+", "*", "/", "id"):
            todo.extend(a for a in args if isinstance(a, SReal))
            continue
        return False
    return True


def note_dom(kind, x, y=None):
    """x is the argument of a function that real numbers have for x >= 0 (logarithms: x > 0) only"""
    e = Ctx.engine
    if e is not None and not x.is_const():
        code = in_repo_code()
        if kind == "log" or not nonneg_form(x):
            e.note_domain(kind, x, y, code)


class SReal:
    __slots__ = ("p", "kind", "op", "args", "_key", "_raw")
    __array_priority__ = 1000.0
    __array_ufunc__ = None       # numpy scalars/arrays defer to our reflected operators

    def __init__(self, p, kind="f", op=None, args=()):
        self.p = p
        self.kind = kind
        self.op = op
        self.args = args
        self._key = None
        self._raw = None

    # -- inspection
    def key(self):
        if self._key is None:
            self._key = pkey(self.p)
        return self._key

    def is_const(self):
        p = self.p
        return not p or (len(p) == 1 and ONE_M in p)

    def const(self):
        return self.p.get(ONE_M, 0)

    def __repr__(self):
        return "S(%s)" % pstr(self.p)

    # -- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return _np.dtype("int64" if self.kind == "i" else "float64")

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return lift(0.0)

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, copy=True):
        return cast_scalar(self, _np.dtype(norm_dtype(dt)))

    def tolist(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = min = max = prod = sum

    def round(self, decimals=0):
        return self.__round__(decimals)

    def reshape(self, *shape):
        from . import arr
        return arr.SArr.of([self]).reshape(*shape)

    def __getitem__(self, idx):
        from . import arr
        if idx == () or idx is Ellipsis:
            return self
        if idx is None:
            return arr.SArr.of([self])
        raise IndexError("invalid index to scalar variable.")

    def is_integer(self):
        if self.is_const():
            return Fraction(self.const()).denominator == 1
        return self == sfloor(self)

    # -- arithmetic
    def _bin(self, o):
        if o.__class__ is SReal:
            return o
        return lift(o) if not isinstance(o, (list, tuple)) else None

    def __add__(self, o):
        if o.__class__ is not SReal and nonfinite(o):
            return nf_apply("add", self, o)
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return sadd(self, o)

    __radd__ = lambda self, o: self.__add__(o)

    def __sub__(self, o):
        if o.__class__ is not SReal and nonfinite(o):
            return nf_apply("sub", self, o)
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return ssub(self, o)

    def __rsub__(self, o):
        if o.__class__ is not SReal and nonfinite(o):
            return nf_apply("sub", o, self)
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return ssub(o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            from . import arr
            return arr.SArr.of(o) * self
        if o.__class__ is not SReal and nonfinite(o):
            return nf_apply("mul", self, o)
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return smul(self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            if self.is_const() and self.kind == "i":
                return o * int(self.const())
            from . import arr
            return arr.SArr.of(o) * self
        if o.__class__ is not SReal and nonfinite(o):
            return nf_apply("mul", o, self)
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return smul(o, self)

    def __truediv__(self, o):
        if o.__class__ is not SReal and nonfinite(o):
            return nf_apply("div", self, o)
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if o.__class__ is not SReal and nonfinite(o):
            return nf_apply("div", o, self)
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return sdiv(o, self)

    def __floordiv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return sfloor(sdiv(self, o), self.kind if self.kind == o.kind else "f")

    def __rfloordiv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o.__floordiv__(self)

    def __mod__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return ssub(self, smul(o, self.__floordiv__(o)))

    def __rmod__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o.__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return spow(o, self)

    def __neg__(self):
        return SReal(pneg(self.p), self.kind, "neg", (self,))

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    # -- comparison
    def __lt__(self, o):
        if o.__class__ is float and nonfinite(o):
            return nf_cmp("lt", self, o)
        o = self._bin(o)
        return NotImplemented if o is None else scmp("lt", self, o)

    def __le__(self, o):
        if o.__class__ is float and nonfinite(o):
            return nf_cmp("le", self, o)
        o = self._bin(o)
        return NotImplemented if o is None else scmp("le", self, o)

    def __gt__(self, o):
        if o.__class__ is float and nonfinite(o):
            return nf_cmp("lt", o, self)
        o = self._bin(o)
        return NotImplemented if o is None else scmp("lt", o, self)

    def __ge__(self, o):
        if o.__class__ is float and nonfinite(o):
            return nf_cmp("le", o, self)
        o = self._bin(o)
        return NotImplemented if o is None else scmp("le", o, self)

    def __eq__(self, o):
        if nonfinite(o):
            return False
        try:
            o = self._bin(o)
        except TypeError:
            return False
        if o is None:
            return NotImplemented
        return scmp("eq", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return snot(r)

    def __hash__(self):
        if self.is_const():
            return hash(self.const())
        # one bucket for all symbolic numbers: dictionary and set lookups compare (and split on) the numbers themselves
        if Ctx.engine is not None:
            Ctx.engine.hashed_symbol()
        return 0x5ca1ab1f

    def __bool__(self):
        r = snot(scmp("eq", self, ZERO))
        return r if isinstance(r, bool) else bool(r)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self * 0

    # -- conversion to concrete
    def __index__(self):
        if self.kind != "i":
            raise TypeError("'numpy.float64' object cannot be interpreted as an integer")
        if self.is_const():
            return int(self.const())
        return Ctx.engine.concretize(self)

    def __int__(self):
        t = strunc(self)
        return t.__index__()

    def __float__(self):
        if self.is_const():
            return float(self.const())
        fail("float() of a symbolic number inside C code")

    def __complex__(self):
        return complex(float(self))

    def __trunc__(self):
        return strunc(self)

    def __floor__(self):
        return sfloor(self, "i")

    def __ceil__(self):
        return -sfloor(-self, "i")

    def __round__(self, n=None):
        if self.kind == "i" and (n is None or n >= 0):
            return self
        if self.is_const():
            return lift(round(Fraction(self.const()), n or 0)) if n else lift(round(Fraction(self.const())))
        s = 10 ** (n or 0)
        return sdiv(sround(smul(self, lift(s))), lift(s)) if n else sround(self)

    # ufunc methods used by numpy's object loops
    def sqrt(self): return ssqrt(self)
    def exp(self): return sexp(self)
    def tanh(self): return stanh(self)
    def log10(self): return slog10(self)
    def log(self): return slog(self)

    def __format__(self, spec):
        return repr(self)


ZERO = SReal({}, "f")
IZERO = SReal({}, "i")
ONE = SReal({ONE_M: 1}, "f")


def const(c, kind="f"):
    return SReal(pconst(nc(c)), kind)


def k2(a, b):
    return "i" if a.kind == "i" and b.kind == "i" else "f"


def sadd(a, b):
    return SReal(padd(a.p, b.p), k2(a, b), "+", (a, b))


def ssub(a, b):
    return SReal(psub(a.p, b.p), k2(a, b), "-", (a, b))


def smul(a, b):
    p = pmul(a.p, b.p)
    if len(a.p) > 1 and a.p == b.p:
        _SQUARE.setdefault(pkey(p), a.p)
    return SReal(p, k2(a, b), "*", (a, b))


def sdiv(a, b):
    if b.is_const():
        c = b.const()
        if not c:
            Ctx.engine.zero_division(a, in_repo_code()) if Ctx.engine else None
            raise ZeroDivisionError("division by zero")
        return SReal(pscale(a.p, Fraction(1) / c), "f", "/", (a, b))
    note_den(b)
    # exact quotient by a scalar multiple
    if a.p and len(a.p) == len(b.p):
        m = lead(b.p)
        if m in a.p:
            c = Fraction(a.p[m]) / b.p[m]
            if all(k in a.p and a.p[k] == c * v for k, v in b.p.items()):
                return SReal({ONE_M: nc(c)}, "f", "/", (a, b))
    return SReal(pmul(a.p, precip(b.p)), "f", "/", (a, b))


def spow(a, b):
    if b.is_const():
        c = b.const()
        if isinstance(c, int):
            if abs(c) > 64:
                fail("large power")
            if c >= 0:
                if c == 2:
                    p = pmul(a.p, a.p)
                    if len(a.p) > 1:
                        _SQUARE.setdefault(pkey(p), a.p)
                else:
                    p = ppow(a.p, c)
                return SReal(p, "i" if a.kind == "i" and b.kind == "i" else "f", "^", (a, c))
            if a.is_const():
                if not a.const():
                    Ctx.engine.zero_division(a, in_repo_code()) if Ctx.engine else None
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            else:
                note_den(a)
            return SReal(ppow(a.p, c), "f", "^", (a, c))
        c = Fraction(c)
        if c.denominator == 2:
            r = ssqrt(a)
            return spow(r, lift(c.numerator))
    # general power: base assumed >= 0
    if a.is_const() and a.const() in (0, 1):
        if a.const() == 1:
            return SReal({ONE_M: 1}, "f")
        # 0**b : 1 when b == 0, 0 when b > 0
        if b.is_const():
            return ZERO if b.const() > 0 else fail("0 to a negative power")
        return site(scmp("eq", b, ZERO), ONE, ZERO)
    if a.is_const() and not b.is_const():
        return sexp(smul(b, slog(a)))
    note_dom("pow", a, b)
    k = b.p.get(ONE_M, 0)
    ki = math.floor(k)
    rest = padd(b.p, pconst(-ki))
    at = atom("pow", (a.key(), pkey(rest)), (a.p, rest), nonneg=True)
    p = pmul({((at.aid, 1),): 1}, ppow(a.p, ki) if ki else {ONE_M: 1})
    return SReal(p, "f", "pow", (a, b))


def _rat_sqrt(c):
    c = Fraction(c)
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def psqrt(p):
    if not p:
        return {}
    root = _SQUARE.get(pkey(p))
    if root is not None:
        return pabs(root)
    if is_const(p):
        c = const_val(p)
        if c < 0:
            fail("square root of a negative number")
        r = _rat_sqrt(c)
        if r is not None:
            return {ONE_M: nc(r)}
        at = atom("sqrt", pkey(p), (p,), nonneg=True, special=True)
        return {((at.aid, 1),): 1}
    c = abs(p[lead(p)])
    q = pscale(p, Fraction(1) / c)
    out = psqrt(pconst(c))
    if len(q) == 1:
        (m, s), = q.items()
        if s == 1 and all(e % 2 == 0 for _, e in m):
            r = {ONE_M: 1}
            for a, e in m:
                r = pmul(r, ppow(pabs({((a, 1),): 1}), e // 2))
            return pmul(out, r)
    root = _SQUARE.get(pkey(q))
    if root is not None:
        return pmul(out, pabs(root))
    at = atom("sqrt", pkey(q), (q,), nonneg=True, special=True)
    return pmul(out, {((at.aid, 1),): 1})


def ssqrt(a):
    note_dom("sqrt", a)
    return SReal(psqrt(a.p), "f", "sqrt", (a,))


def common_mono(p):
    """the largest monomial dividing every term (None when there is none)"""
    it = iter(p)
    com = dict(next(it))
    for m in it:
        if not com:
            return None
        d = dict(m)
        for a in list(com):
            e, f = com[a], d.get(a, 0)
            if e > 0 and f > 0:
                com[a] = min(e, f)
            elif e < 0 and f < 0:
                com[a] = max(e, f)
            else:
                del com[a]
    return tuple(sorted(com.items())) if com else None


def split_mono(p):
    """p = m * q with a common monomial m, or None"""
    m = common_mono(p)
    if m is None:
        return None
    inv = {tuple((a, -e) for a, e in m): 1}
    return {m: 1}, pmul(p, inv)


def pabs(p):
    if not p:
        return {}
    if is_const(p):
        return {ONE_M: abs(const_val(p))}
    if len(p) == 1:
        (m, c), = p.items()
        r = {ONE_M: abs(c)}
        for a, e in m:
            at = ATOMS[a]
            if e % 2 == 0:
                r = pmul(r, {((a, e),): 1})
            elif at.nonneg:
                r = pmul(r, {((a, e),): 1})
            elif at.kind == "den":
                r = pmul(r, ppow(pabs(at.args[0]), e))
            else:
                x = atom("abs", pkey({((a, 1),): 1}), ({((a, 1),): 1},), nonneg=True, special=True)
                r = pmul(r, {((x.aid, e),): 1})
        return r
    sp = split_mono(p)
    if sp is not None:
        return pmul(pabs(sp[0]), pabs(sp[1]))
    c = p[lead(p)]
    q = pscale(p, Fraction(1) / c)
    at = atom("abs", pkey(q), (q,), nonneg=True, special=True)
    return {((at.aid, 1),): abs(c)}


def sabs(a):
    if a.is_const():
        return SReal(pconst(abs(a.const())), a.kind)
    return SReal(pabs(a.p), a.kind, "abs", (a,))


def psign(p):
    if is_const(p):
        c = const_val(p)
        return pconst((c > 0) - (c < 0))
    if len(p) == 1:
        (m, c), = p.items()
        r = {ONE_M: 1 if c > 0 else -1}
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "exp":
                continue
            if at.kind == "den":
                s = psign(at.args[0])
            else:
                x = atom("sign", pkey({((a, 1),): 1}), ({((a, 1),): 1},), special=True)
                s = {((x.aid, 1),): 1}
            # sign^even = sign^2, sign^odd = sign
            s2 = pmul(s, s) if e % 2 == 0 else s
            r = pmul(r, s2)
        return r
    sp = split_mono(p)
    if sp is not None:
        return pmul(psign(sp[0]), psign(sp[1]))
    c = p[lead(p)]
    q = pscale(p, Fraction(1) / c)
    at = atom("sign", pkey(q), (q,), special=True)
    return {((at.aid, 1),): 1 if c > 0 else -1}


def ssign(a):
    return SReal(psign(a.p), a.kind, "sign", (a,))


def exp_mono(m, c):
    """exp(c*m) as Laurent monomial over exp atoms (unit: half of the monomial)"""
    c2 = c * 2
    f = Fraction(c2)
    if f.denominator == 1 and abs(f.numerator) <= 64:
        at = atom("exp", (m, Fraction(1, 2)), ({m: Fraction(1, 2)},), nonneg=True)
        return {((at.aid, int(f)),): 1}
    s = 1 if c > 0 else -1
    at = atom("exp", (m, abs(c)), ({m: abs(c)},), nonneg=True)
    return {((at.aid, s),): 1}


def pexp(p):
    r = {ONE_M: 1}
    for m, c in p.items():
        r = pmul(r, exp_mono(m, c))
    return r


def sexp(a):
    if not a.p:
        return ONE
    return SReal(pexp(a.p), "f", "exp", (a,))


def stanh(a):
    if not a.p:
        return ZERO
    # tanh(z) = 1 - 2/(exp(2z)+1)
    e2 = pexp(pscale(a.p, 2))
    p = padd({ONE_M: 1}, pscale(precip(padd(e2, {ONE_M: 1})), -2))
    return SReal(p, "f", "tanh", (a,))


@functools.lru_cache(maxsize=20000)
def _factors(n):
    """n as a product of powers: small primes split off, the rest with its roots drawn"""
    out, q = [], 2
    while q < 2000 and q * q <= n:
        k = 0
        while n % q == 0:
            n //= q
            k += 1
        if k:
            out.append((q, k))
        q += 1 if q == 2 else 2
    k = 1
    while n > 1:
        r = math.isqrt(n)
        if r * r != n:
            break
        n, k = r, 2 * k
    if n > 1:
        out.append((n, k))
    return out


def _plog(p):
    """log10|p| canonical"""
    if not p:
        Ctx.engine.undefined("log of zero")
    root = _SQUARE.get(pkey(p))
    if root is not None:
        return pscale(_plog(root), 2)
    if is_const(p):
        c = abs(Fraction(const_val(p)))
        r = {}
        if c == 1:
            return r
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            k = 0
            while n % 10 == 0 and n > 1:
                n //= 10
                k += 1
            r = padd(r, pconst(s * k))
            for q, k in _factors(n):
                at = atom("log10", pkey(pconst(q)), (pconst(q),))
                r = padd(r, {((at.aid, 1),): s * k})
        return r
    c = p[lead(p)]
    q = pscale(p, Fraction(1) / c)
    r = _plog(pconst(abs(c)))
    root = _SQUARE.get(pkey(q))
    if root is not None:
        return padd(r, pscale(_plog(root), 2))
    if len(q) == 1:
        (m, _), = q.items()
        for a, e in m:
            at = ATOMS[a]
            if at.kind in ("abs", "den"):
                r = padd(r, pscale(_plog(at.args[0]), e))
            elif at.kind == "sqrt":
                r = padd(r, pscale(_plog(at.args[0]), Fraction(e, 2)))
            elif at.kind == "exp":
                r = padd(r, pscale(pmul(at.args[0], precip(_LN10())), e))
            else:
                x = atom("log10", pkey({((a, 1),): 1}), ({((a, 1),): 1},))
                r = padd(r, {((x.aid, 1),): e})
        return r
    at = atom("log10", pkey(q), (q,))
    return padd(r, {((at.aid, 1),): 1})


def note_log(a):
    if a.is_const():
        if a.const() < 0:
            fail("logarithm of a negative number")
    else:
        note_dom("log", a)


def _LN10():
    at = atom("ln10", "ln10", (), nonneg=True)
    return {((at.aid, 1),): 1}


def slog10(a):
    note_log(a)
    return SReal(_plog(a.p), "f", "log10", (a,))


def slog(a):
    note_log(a)
    return SReal(pmul(_plog(a.p), _LN10()), "f", "ln", (a,))


def sfloor(a, kind="f"):
    if a.is_const():
        return SReal(pconst(math.floor(a.const())), kind)
    if a.kind == "i":
        return SReal(a.p, kind, a.op, a.args)
    at = atom("floor", a.key(), (a.p,))
    return SReal({((at.aid, 1),): 1}, kind, "floor", (a,))


def sround(a):
    """round half even"""
    if a.is_const():
        return SReal(pconst(round(Fraction(a.const()))), "i")
    if a.kind == "i":
        return a
    r = sfloor(sadd(a, const(Fraction(1, 2))), "i")
    # a tie goes to the even neighbour
    h = sfloor(SReal(pscale(r.p, Fraction(1, 2)), "f", "mul", (r, const(Fraction(1, 2)))), "i")
    tie = sand(scmp("eq", sadd(a, const(Fraction(1, 2))), r), snot(scmp("eq", smul(h, const(2)), r)))
    out = site(tie, ssub(r, const(1)), r)
    return SReal(out.p, "i", out.op, out.args)


def strunc(a):
    if a.kind == "i":
        return a
    if a.is_const():
        return SReal(pconst(math.trunc(a.const())), "i")
    at = atom("trunc", a.key(), (a.p,))
    return SReal({((at.aid, 1),): 1}, "i", "trunc", (a,))


def smax(*xs):
    bad = [x for x in xs if nonfinite(x)]
    if bad:
        if any(x != x for x in bad) or math.inf in bad:
            return math.nan if any(x != x for x in bad) else math.inf
        xs = [x for x in xs if not nonfinite(x)]
        if not xs:
            return -math.inf
    xs = [lift(x) for x in xs]
    if len(xs) == 1:
        return xs[0]
    kind = "i" if all(x.kind == "i" for x in xs) else "f"
    flat = {}
    cbest = None
    for x in xs:
        for q in _max_args(x.p):
            if is_const(q):
                c = const_val(q)
                cbest = c if cbest is None or c > cbest else cbest
            else:
                flat[pkey(q)] = q
    if cbest is not None and not (cbest <= 0 and any(_nonneg(q) for q in flat.values())):
        flat[pkey(pconst(cbest))] = pconst(cbest)
    if len(flat) == 1:
        return SReal(next(iter(flat.values())), kind, "max", tuple(xs))
    at = atom("max", frozenset(flat), tuple(flat.values()),
              nonneg=any(_nonneg(q) for q in flat.values()))
    return SReal({((at.aid, 1),): 1}, kind, "max", tuple(xs))


def _nonneg(p):
    return all(c > 0 and all(ATOMS[a].nonneg or e % 2 == 0 for a, e in m) for m, c in p.items())


def _max_args(p):
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "max":
            return ATOMS[m[0][0]].args
    return (p,)


def smin(*xs):
    if any(nonfinite(x) for x in xs):
        r = smax(*[-x for x in xs])
        return -r
    xs = [lift(x) for x in xs]
    if len(xs) == 1:
        return xs[0]
    m = -smax(*[-x for x in xs])
    return SReal(m.p, m.kind, "min", tuple(xs))


def sind(b):
    """SBool or bool -> 0/1"""
    if isinstance(b, (bool, _np.bool_)):
        return SReal(pconst(1 if b else 0), "i")
    b0, neg = b.strip_not()
    at = atom("ind", b0.key(), (b0,), nonneg=True, special=True)
    p = {((at.aid, 1),): 1}
    if neg:
        p = {ONE_M: 1, ((at.aid, 1),): -1}
    return SReal(p, "i", "ind", (b,))


def site(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    a, b = lift(a), lift(b)
    if a.p == b.p:
        return a
    i = sind(c)
    p = padd(b.p, pmul(i.p, psub(a.p, b.p)))
    return SReal(p, k2(a, b), "ite", (c, a, b))


def uf(name, *args, nonneg=False, index=()):
    """uninterpreted function of canonical arguments"""
    args = [lift(x) for x in args]
    at = atom("uf", (name, index, tuple(x.key() for x in args)), (name, index, tuple(x.p for x in args)), nonneg=nonneg)
    return SReal({((at.aid, 1),): 1}, "f", "atom", (at,))


def var(name, kind="f", rng=None):
    at = atom("var", name, (kind,) + tuple(rng or ()), name=name)
    return SReal({((at.aid, 1),): 1}, kind, "atom", (at,))


def round_float(x, dt):
    """value rounded to a float type narrower than 64 bits: an unknown function, except for constants"""
    x = lift(x)
    if x.is_const():
        c = float(_np.dtype(dt).type(float(x.const())))
        return SReal(pconst(Fraction(c)), "f") if math.isfinite(c) else c
    if x.op == "atom" and x.args[0].kind == "uf" and x.args[0].args[0] in NARROW and NARROW[x.args[0].args[0]] <= dt.itemsize:
        return x
    Ctx.engine.rounded = True
    return uf("float%d" % (8 * dt.itemsize), x)


NARROW = {"float32": 4, "float16": 2}


def wrap_int(x, dt):
    """value of an operation in an integer type of fewer than 64 bits: modulo 2^bits"""
    bits = 8 * dt.itemsize
    half = 0 if dt.kind == "u" else 1 << (bits - 1)
    x = lift(x)
    if x.is_const():
        c = x.const()
        return SReal(pconst((c + half) % (1 << bits) - half), "i")
    f = sfloor(SReal(pscale(padd(x.p, pconst(half)), Fraction(1, 1 << bits)), "f", "mul",
                     (SReal(padd(x.p, pconst(half)), "f", "add", (x, const(half))), const(Fraction(1, 1 << bits)))), "i")
    r = x - f * const(1 << bits)
    return SReal(r.p, "i", r.op, r.args)


# ---------------------------------------------------------------- booleans
class SBool:
    """op: 'cmp' (rel, a, b) with rel in lt, le, eq ; 'not', 'and', 'or', 'iff', 'true'"""
    __slots__ = ("op", "args", "_key")
    __array_priority__ = 1000.0
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1
    dtype = _np.dtype(bool)

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._key = None

    def key(self):
        if self._key is None:
            if self.op == "cmp":
                rel, q = self.canon()
                self._key = (rel, pkey(q))
            elif self.op in ("and", "or"):
                self._key = (self.op, frozenset(a.key() for a in self.args))
            else:
                self._key = (self.op,) + tuple(a.key() for a in self.args)
        return self._key

    def canon(self):
        """('gt0', p) or ('ge0', p) or ('eq0', p) with |leading coefficient| 1"""
        rel, a, b = self.args
        d = psub(b.p, a.p)
        c = abs(d[lead(d)])
        d = pscale(d, Fraction(1) / c)
        if rel == "lt":
            return "gt0", d
        if rel == "le":
            return "ge0", d
        if d[lead(d)] < 0:
            d = pneg(d)
        return "eq0", d

    def strip_not(self):
        """normal form for indicators: (b, negated)"""
        if self.op == "not":
            b, n = self.args[0].strip_not()
            return b, not n
        if self.op == "cmp" and self.args[0] == "le":
            # a <= b  ==  not (b < a)
            return SBool("cmp", ("lt", self.args[2], self.args[1])), True
        return self, False

    def as_real(self):
        return sind(self)

    def __bool__(self):
        return Ctx.engine.decide(self)

    def __repr__(self):
        return "SBool(%s %s)" % (self.op, self.args)

    def __hash__(self):
        fail("hash of a symbolic boolean")

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, copy=True):
        return cast_scalar(self, _np.dtype(norm_dtype(dt)))

    def all(self, *a, **k):
        return self

    any = all

    def __and__(self, o):
        return sand(self, o) if isinstance(o, (bool, _np.bool_, SBool)) else (self.as_real() and NotImplemented)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o) if isinstance(o, (bool, _np.bool_, SBool)) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return snot(siff(self, o)) if isinstance(o, (bool, _np.bool_, SBool)) else NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SBool)):
            return siff(self, o)
        return self.as_real() == o

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def _ar(name):
        def f(self, o):
            return getattr(self.as_real(), name)(o)
        return f

    for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow "
               "lt le gt ge").split():
        locals()["__%s__" % _n] = _ar("__%s__" % _n)
    del _n, _ar

    def __neg__(self):
        return -self.as_real()

    def __abs__(self):
        return self.as_real()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))


def scmp(rel, a, b):
    d = psub(b.p, a.p)
    if is_const(d):
        c = const_val(d)
        return c > 0 if rel == "lt" else c >= 0 if rel == "le" else c == 0
    return SBool("cmp", (rel, a, b))


def snot(b):
    if isinstance(b, (bool, _np.bool_)):
        return not b
    if b.op == "not":
        return b.args[0]
    return SBool("not", (b,))


def sand(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, _np.bool_)):
            if not b:
                return False
        else:
            out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else SBool("and", tuple(out))


def sor(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, _np.bool_)):
            if b:
                return True
        else:
            out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else SBool("or", tuple(out))


def siff(a, b):
    if isinstance(a, (bool, _np.bool_)):
        a, b = b, a
    if isinstance(b, (bool, _np.bool_)):
        return a if b else snot(a)
    return SBool("iff", (a, b))


# ---------------------------------------------------------------- dtypes
def norm_dtype(dt):
    """whatever code passes as dtype -> numpy dtype"""
    if dt is None:
        return None
    real = getattr(dt, "_symx_dtype", None)
    if real is not None:
        return real
    return _np.dtype(dt)


def cast_scalar(x, dt):
    """value stored in an array of dtype dt"""
    k = dt.kind
    if k == "f" or k == "c":
        if nonfinite(x):
            return float(x)
        if k == "f" and dt.itemsize < 8:
            return round_float(x, dt)
        x = lift(x)
        return x if x.kind == "f" else SReal(x.p, "f", "id", (x,))
    if k in "iu":
        if isinstance(x, (bool, _np.bool_, SBool)):
            return sind(x)
        return strunc(lift(x))
    if k == "b":
        if isinstance(x, (bool, _np.bool_, SBool)):
            return x
        return snot(scmp("eq", lift(x), ZERO))
    return x


# ---------------------------------------------------------------- printing
def pstr(p, limit=8):
    if not p:
        return "0"
    ts = []
    for m, c in list(p.items())[:limit]:
        s = "*".join(ATOMS[a].name + ("^%d" % e if e != 1 else "") for a, e in m)
        ts.append(("%s*%s" % (c, s) if s and c != 1 else s or str(c)))
    if len(p) > limit:
        ts.append("...(%d terms)" % len(p))
    return " + ".join(ts)


# ---------------------------------------------------------------- rational-function zero test
def clear_denominators(p, limit=20000):
    """multiply p by powers of its denominators (newest first) until none is left; None if too big"""
    for _ in range(200):
        worst = None
        for m in p:
            for a, e in m:
                if e < 0 and (worst is None or a > worst):
                    worst = a
        if worst is None:
            return p
        at = ATOMS[worst]
        k = max(-dict(m).get(worst, 0) for m in p)
        q = {}
        if at.kind == "den":
            pows = [{ONE_M: 1}]
            for i in range(k):
                pows.append(pmul(pows[-1], at.args[0]))
        for m, c in p.items():
            d = dict(m)
            e = d.pop(worst, 0)
            m2 = tuple(sorted(d.items()))
            if at.kind == "den":
                t = pmul({m2: c}, pows[k + e])
            else:
                e += k
                t = {m2: c} if e == 0 else pmul({m2: c}, {((worst, e),): 1})
            q = padd(q, t)
            if len(q) > limit:
                return None
        p = q
    return None
