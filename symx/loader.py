"""Loads the package under test from /repo's current source into a private registry whose `numpy`,
`scipy` and `math` are the symbolic stand-ins.  The code itself is compiled unchanged except that
  a / b, a ** b on plain Python numbers are computed exactly (rational) instead of in floating point."""
import ast
import builtins as _b
import importlib
import math as _math
import os
import sys
import types
import warnings
from fractions import Fraction

import numpy as _np

from . import arr, merge, npshim, terms
from .arr import SArr, SCALARS
from .sstr import SStr
from .terms import (SReal, SBool, Unsupported, PathEnd, fail, lift, const, Ctx, ssqrt, sexp, slog, slog10, stanh,
                    sfloor, spow, sabs, smax, smin, scmp, site, strunc, uf, NUM)

REPO = os.environ.get("VERIF_REPO", "/repo")
NP = npshim.NP


# ------------------------------------------------------------------ builtins seen by the code
class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_real", c), cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __or__(cls, o):
        return (cls, o)


def _mkfloat(x=0.0):
    if isinstance(x, (SReal, SBool)):
        x = lift(x)
        return SReal(x.p, "f", "id", (x,))
    if isinstance(x, SArr):
        return _mkfloat(x._only())
    if isinstance(x, SStr):
        return x.to_float()
    return float(x)


def _mkint(x=0, *a):
    if isinstance(x, SReal):
        return terms.strunc(x)
    if isinstance(x, SBool):
        return terms.sind(x)
    if isinstance(x, SArr):
        return _mkint(x._only())
    if isinstance(x, Fraction):
        return int(x)
    return int(x, *a)


def _mkbool(x=False):
    if isinstance(x, SBool):
        return bool(x)
    return bool(x)


def _mkstr(x="", *a):
    if isinstance(x, SStr):
        return x
    return str(x, *a) if a else str(x)


def _T(name, real, check, make):
    return _Meta(name, (), {"_real": real, "_check": staticmethod(check), "_make": staticmethod(make),
                            "_symx_dtype": _np.dtype(real) if real in (float, int, bool) else None})


sfloat = _T("float", float, lambda x: isinstance(x, float) or (isinstance(x, SReal) and x.kind == "f"), _mkfloat)
sint = _T("int", int, lambda x: isinstance(x, int) or (isinstance(x, SReal) and x.kind == "i" and x.is_const()), _mkint)
sbool = _T("bool", bool, lambda x: isinstance(x, (bool, SBool)), _mkbool)
sstr = _T("str", str, lambda x: isinstance(x, (str, SStr)), _mkstr)
for _t in (sstr,):
    del _t._symx_dtype

_REALMAP = {sfloat: float, sint: int, sbool: bool, sstr: str}


def s_isinstance(x, t):
    if isinstance(t, tuple):
        return any(s_isinstance(x, e) for e in t)
    if isinstance(t, types.UnionType):
        return any(s_isinstance(x, e) for e in t.__args__)
    if isinstance(x, (SReal, SBool)) and t in _ABC:
        return t in _ABC_OK.get(x.kind if isinstance(x, SReal) else "b", ())
    if t is float or t is sfloat:
        return sfloat._check(x)
    return isinstance(x, t)


import numbers as _numbers
_ABC = (_numbers.Number, _numbers.Real, _numbers.Integral, _numbers.Complex, _numbers.Rational)
_ABC_OK = {"f": (_numbers.Number, _numbers.Real, _numbers.Complex), "i": _ABC, "b": ()}


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SArr):
            return npshim.ndarray
        if isinstance(x, SReal):
            return sfloat if x.kind == "f" else sint
        if isinstance(x, SBool):
            return sbool
        if isinstance(x, (float, int, str)) and type(x) in (float, int, bool, str):
            return {float: sfloat, int: sint, bool: sbool, str: sstr}[type(x)]
        return type(x)
    return type(*a)


def s_round(x, n=None):
    return round(x, n) if n is not None else round(x)


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _fold(name, pick):
    real = getattr(_b, name)

    def f(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(isinstance(x, SReal) for x in xs) and key is None:
            return pick(*xs)
        if len(a) == 1:
            return real(xs, key=key, **k) if key else real(xs, **k)
        return real(*xs, key=key) if key else real(*xs)
    return f


def s_pow(a, b, m=None):
    if m is not None:
        return pow(a, b, m)
    return x_pow(a, b)


def s_print(*a, **k):
    pass


def s_range(*a):
    return range(*[npshim._int(x) if not isinstance(x, int) else x for x in a])


def s_open(*a, **k):
    fail("file access")


def s_divmod(a, b):
    return divmod(a, b)


def s_hash(x):
    return hash(x)


# ------------------------------------------------------------------ exact python division and power
_PYNUM = (int, float, Fraction)


def x_div(a, b):
    if isinstance(a, _PYNUM) and isinstance(b, _PYNUM):
        if b == 0:
            return a / b
        return lift(Fraction(terms.to_coef(a)) / terms.to_coef(b)) if not isinstance(a, Fraction) else a / Fraction(b)
    return a / b


def x_pow(a, b):
    if isinstance(a, _PYNUM) and isinstance(b, _PYNUM) and not (isinstance(a, int) and isinstance(b, int) and b >= 0):
        if a == 0:
            return a ** b
        r = spow(lift(a), lift(b))
        return SReal(r.p, "f", r.op, r.args)
    return a ** b


def x_idiv(a, b):
    if isinstance(a, _PYNUM) and isinstance(b, _PYNUM):
        return x_div(a, b)
    a /= b
    return a


def x_ipow(a, b):
    if isinstance(a, _PYNUM) and isinstance(b, _PYNUM):
        return x_pow(a, b)
    a **= b
    return a


class _Exact(ast.NodeTransformer):
    OPS = {ast.Div: "__symx_div__", ast.Pow: "__symx_pow__"}
    IOPS = {ast.Div: "__symx_idiv__", ast.Pow: "__symx_ipow__"}

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = self.OPS.get(type(n.op))
        if f is None:
            return n
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = self.IOPS.get(type(n.op))
        if f is None or not isinstance(n.target, ast.Name):
            return n
        return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(f, ast.Load()),
                                 [ast.Name(n.target.id, ast.Load()), n.value], [])), n)


# ------------------------------------------------------------------ math, scipy, random stand-ins
def _m1(name, fn):
    real = getattr(_math, name)

    def f(x, *a):
        xs = [v._only() if isinstance(v, SArr) else v for v in (x,) + a]
        if any(isinstance(v, (SReal, SBool)) for v in xs):
            return fn(*[lift(v) for v in xs])
        return real(*xs)
    return f


def _build_math():
    m = types.ModuleType("math")
    for n in dir(_math):
        if not n.startswith("__"):
            setattr(m, n, getattr(_math, n))

    def guard(n, real):
        def f(*a):
            if any(isinstance(x, (SReal, SArr, SBool)) and not (isinstance(x, SReal) and x.is_const()) for x in a):
                fail("math.%s of a symbolic number" % n)
            return real(*[x.__index__() if isinstance(x, SReal) and x.kind == "i" else float(x) if isinstance(x, SReal) else x for x in a])
        return f
    for n in dir(_math):
        v = getattr(_math, n)
        if callable(v):
            setattr(m, n, guard(n, v))
    for n, fn in {"sqrt": ssqrt, "exp": sexp, "log10": slog10, "tanh": stanh, "fabs": sabs,
                  "floor": lambda x: sfloor(x, "i"), "ceil": lambda x: -sfloor(-x, "i"), "trunc": strunc,
                  "expm1": lambda x: sexp(x) - 1, "log1p": lambda x: slog(x + 1),
                  "cosh": lambda x: (sexp(x) + sexp(-x)) / 2, "sinh": lambda x: (sexp(x) - sexp(-x)) / 2,
                  "pow": spow, "copysign": lambda x, y: site(scmp("lt", y, terms.ZERO), -sabs(x), sabs(x))}.items():
        setattr(m, n, _m1(n, fn))

    def log(x, base=None):
        if isinstance(x, SReal) or isinstance(base, SReal):
            return slog(lift(x)) if base is None else slog10(lift(x)) / slog10(lift(base))
        return _math.log(x) if base is None else _math.log(x, base)
    m.log = log
    for n in ("isnan", "isinf"):
        setattr(m, n, lambda x, n=n: False if isinstance(x, SReal) else getattr(_math, n)(x))
    m.isfinite = lambda x: True if isinstance(x, SReal) else _math.isfinite(x)

    def fsum(xs):
        return s_sum(list(xs), 0.0)
    m.fsum = fsum
    m.prod = lambda xs, start=1: arr.smul_all(list(xs)) * start
    m.sumprod = lambda a, b: s_sum([x * y for x, y in zip(a, b)])
    m.dist = lambda a, b: ssqrt(lift(s_sum([(x - y) ** 2 for x, y in zip(a, b)])))
    m.hypot = lambda *a: ssqrt(lift(s_sum([x * x for x in a])))
    return m


class GenPareto:
    """scipy.stats.genpareto with an arbitrary fit and an arbitrary distribution function (uninterpreted;
    the distribution function lies in [0, 1]); the location is the fixed one when floc is given."""

    def _key(self, data):
        d = arr.to_arr(data)
        return [lift(e) for e in d.a.ravel()]

    def fit(self, data, *a, floc=None, **k):
        if a or k:
            fail("genpareto.fit with other arguments")
        xs = self._key(data)
        if not xs:
            raise ValueError("empty data")
        extra = []
        if floc is not None:
            loc = arr.to_arr(floc)
            loc = lift(loc.a.ravel()[0])
            extra = [loc]
        c = uf("gp_shape", *(xs + extra), index=(len(xs),))
        s = uf("gp_scale", *(xs + extra), index=(len(xs),), nonneg=True)
        if floc is None:
            loc = uf("gp_loc", *xs, index=(len(xs),))
        else:
            # scipy returns the fixed location with the type it was given
            loc = floc if not isinstance(floc, (list, tuple)) else list(floc)
            loc = _Loc(loc)
            return (c, loc.value(), s)
        return (c, loc, s)

    def _args(self, x, c, loc, scale):
        def s(v):
            v = arr.to_arr(v)
            return v
        return s(x), s(c), s(loc), s(scale)

    def cdf(self, x, c, loc=0, scale=1):
        def one(x, c, l, s):
            v = uf("gp_cdf", lift(c), (lift(x) - l) / lift(s), nonneg=True)
            Ctx.engine.axiom_le(v, 1)
            return v
        r = arr.elementwise(one, list(self._args(x, c, loc, scale)), arr.DT_F)
        return r

    def sf(self, x, c, loc=0, scale=1):
        return 1 - self.cdf(x, c, loc, scale)

    def __call__(self, c, loc=0, scale=1):
        return _Frozen(self, c, loc, scale)

    def __getattr__(self, n):
        fail("scipy.stats.genpareto.%s" % n)


class _Frozen:
    def __init__(self, g, *a):
        self.g, self.a = g, a

    def cdf(self, x):
        return self.g.cdf(x, *self.a)

    def sf(self, x):
        return self.g.sf(x, *self.a)


class _Loc:
    def __init__(self, v):
        self.v = v

    def value(self):
        return self.v


def _scipy():
    st = types.ModuleType("scipy.stats")
    st.genpareto = GenPareto()
    st.__getattr__ = lambda n: fail("scipy.stats.%s" % n)
    sp = types.ModuleType("scipy")
    sp.stats = st
    sp.linalg = NP.linalg
    sp.special = types.SimpleNamespace(expit=lambda x: 1 / (1 + NP.exp(-arr.to_arr(x))) if not isinstance(x, SCALARS) else 1 / (1 + sexp(-lift(x))))
    sp.__getattr__ = lambda n: fail("scipy.%s" % n)
    return sp


MATH = _build_math()
SCIPY = _scipy()
SHIMS = {"numpy": NP, "numpy.linalg": NP.linalg, "numpy.random": NP.random, "math": MATH, "scipy": SCIPY,
         "scipy.stats": SCIPY.stats, "numpy.lib": NP.lib, "numpy.lib.stride_tricks": NP.lib.stride_tricks,
         "scipy.linalg": NP.linalg, "scipy.special": SCIPY.special}
ALLOWED = set("""warnings datetime functools itertools operator copy collections abc typing types enum dataclasses contextlib
inspect string re fractions decimal numbers __future__ weakref sys collections.abc logging time textwrap numpy.typing""".split())


_CODE = {}


class Loader:
    def __init__(self, repo=None, package="padasip"):
        self.repo = os.path.realpath(repo or REPO)
        self.package = package
        self.mods = {}
        self.sources = {}
        self.builtins = dict(vars(_b))
        self.builtins.update({
            "float": sfloat, "int": sint, "bool": sbool, "str": sstr, "isinstance": s_isinstance, "type": s_type,
            "sum": s_sum, "max": _fold("max", lambda *x: smax(*x)), "min": _fold("min", lambda *x: smin(*x)),
            "pow": s_pow, "print": s_print, "range": s_range, "open": s_open, "__import__": self.imp,
            "__symx_div__": x_div, "__symx_pow__": x_pow, "__symx_idiv__": x_idiv, "__symx_ipow__": x_ipow,
            **merge.NAMES,
            "input": s_open, "exec": s_open, "eval": s_open,
        })
        Ctx.repo = self.repo + os.sep

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == self.package:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and self.find(name + "." + f):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load(top)
        if top in ("numpy", "scipy", "math"):
            if name not in SHIMS:
                if name in ALLOWED:
                    return importlib.import_module(name) if fromlist else importlib.import_module(top)
                fail("import of %s is not modelled" % name)
            return SHIMS[name] if fromlist else SHIMS[top]
        if top == "random":
            fail("import of random is not modelled")
        if name in ALLOWED or top in ALLOWED:
            return __import__(name, globals, locals, fromlist, 0)
        fail("import of %s is not modelled" % name)

    def find(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent, _, leaf = name.rpartition(".")
        if parent:
            p = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        f = self.find(name)
        if f is None:
            raise ModuleNotFoundError("No module named %r" % name)
        path, is_pkg = f
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else parent
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.sources[os.path.relpath(path, self.repo)] = src
        code = _CODE.get((path, src))
        if code is None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.fix_missing_locations(merge.Rewriter().visit(_Exact().visit(ast.parse(src, path))))
                code = _CODE[(path, src)] = compile(tree, path, "exec")
        hidden = sys.modules.get(name)
        sys.modules[name] = m           # seen by decorators such as dataclass while the module is executed
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        finally:
            if hidden is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = hidden
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def strings(self):
        """string constants of the loaded code (candidates for symbolic strings)"""
        out = set()

        def walk(c):
            for k in c.co_consts:
                if isinstance(k, str):
                    out.add(k)
                elif isinstance(k, types.CodeType):
                    walk(k)
                elif isinstance(k, (tuple, frozenset)):
                    out.update(e for e in k if isinstance(e, str))
        for path, src in self.sources.items():
            walk(_CODE[(os.path.join(self.repo, path), src)])
        for m in self.mods.values():
            for n, v in list(vars(m).items()):
                if n.startswith('__') or isinstance(v, types.ModuleType):
                    continue
                if isinstance(v, dict):
                    out.update(k for k in v if isinstance(k, str))
                if isinstance(v, (list, tuple, set, frozenset)):
                    out.update(k for k in v if isinstance(k, str))
        out = {s for s in out if len(s) <= 24 and s.isascii() and s.isprintable()}
        out |= {s.upper() for s in out} | {s.lower() for s in out}
        return sorted(out)


# ------------------------------------------------------------------ which functions were executed
class Coverage:
    TOOL = 4

    def __init__(self, root):
        self.root = root
        self.seen = set()
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "symx")
        except ValueError:
            pass
        mon.register_callback(self.TOOL, mon.events.PY_START, self._start)
        mon.set_events(self.TOOL, mon.events.PY_START)

    def _start(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.root):
            self.seen.add("%s:%s" % (os.path.relpath(fn, self.root), code.co_qualname))
        return sys.monitoring.DISABLE

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)
