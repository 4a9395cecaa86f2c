"""The interface harnesses are written against.  The same harness runs symbolically (SymH) and on the
real package with concrete numbers (ConcH)."""
import math
import random
import sys
import os
import warnings
from fractions import Fraction


class Assumption(Exception):
    pass


class _Base:
    concrete = False

    # ---- specification helpers (plain python lists of scalars)
    def dot(self, a, b):
        r = None
        for x, y in zip(a, b):
            r = x * y if r is None else r + x * y
        return 0 if r is None else r

    def sumsq(self, a):
        return self.dot(a, a)

    def vadd(self, a, b):
        return [x + y for x, y in zip(a, b)]

    def vsub(self, a, b):
        return [x - y for x, y in zip(a, b)]

    def vscale(self, c, a):
        return [c * x for x in a]

    def mean(self, a):
        a = list(a)
        return self.total(a) / len(a)

    def total(self, a):
        r = None
        for x in a:
            r = x if r is None else r + x
        return 0 if r is None else r

    def var(self, a):
        m = self.mean(a)
        return self.mean([(x - m) ** 2 for x in a])

    def positive(self, name):
        return self.real(name, positive=True)

    def reals(self, name, n):
        return [self.real("%s%d" % (name, i)) for i in range(n)]

    def grid(self, name, n, m):
        return [[self.real("%s%d_%d" % (name, i, j)) for j in range(m)] for i in range(n)]

    def vec(self, name, n):
        return self.array(self.reals(name, n))

    def mat(self, name, n, m):
        return self.array(self.grid(name, n, m), (n, m))

    def raises(self, exc, f, label):
        """f() must raise exc"""
        try:
            f()
        except exc:
            return True
        except Exception as e:
            self.false("%s: raised %s instead of %s" % (label, type(e).__name__, exc.__name__))
            return False
        self.false("%s: not refused" % label)
        return False


def int_range(np, dtype):
    """values drawn for a small integer type: all of them, up to 100000"""
    info = np.iinfo(dtype)
    return max(int(info.min), -100000), min(int(info.max), 100000)


class SymH(_Base):
    concrete = False

    def __init__(self, eng):
        self.eng = eng
        self.loader = eng.loader_factory()
        self.pa = self.loader.load("padasip")
        eng.string_candidates = _cands(self.loader)

    def finish(self):
        pass

    def fresh(self):
        """the package loaded once more, as a new process would have it"""
        l = self.eng.loader_factory()
        return l.load("padasip")

    def order_shuffles(self, f):
        """shuffles of n things give the order f(n), instead of every order"""
        self.eng.fixed_perm = f

    def mean(self, a):
        a = list(a)
        return self.total(a) / Fraction(len(a))

    # ---- inputs
    def real(self, name, positive=False):
        v = self.eng.new_var(name, "f", positive)
        if positive:
            self.assume(v > 0)
        return v

    def int_(self, name, lo=None, hi=None):
        v = self.eng.new_var(name, "i")
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def ints(self, name, n):
        return [self.eng.new_var("%s%d" % (name, i), "i") for i in range(n)]

    def narrow(self, name, shape, dtype):
        """array of any values of a small integer type"""
        from .arr import SArr
        import numpy as np
        lo, hi = int_range(np, dtype)
        a = np.empty(shape, dtype=object)
        for k, i in enumerate(np.ndindex(*shape)):
            a[i] = self.eng.new_var("%s%d" % (name, k), "i", rng=(lo, hi))
            self.assume(a[i] >= lo)
            self.assume(a[i] <= hi)
        return SArr(a, np.dtype(dtype))

    def fortran(self, x):
        """the same array in column order"""
        from .arr import SArr
        import numpy as np
        return SArr(np.asfortranarray(x.a), x.dt)

    def array(self, xs, shape=None, dtype=None):
        from .arr import SArr
        from .terms import norm_dtype
        import numpy as np
        if shape is not None and 0 in shape:
            return SArr.full(shape, 0)
        return SArr.of(xs, dtype or "float64")

    def asfloat(self, x):
        from .terms import SReal
        return SReal(x.p, "f", "id", (x,))

    def string(self, name, n):
        from .sstr import SStr
        cs = []
        for i in range(n):
            c = self.eng.new_var("%s_c%d" % (name, i), "i")
            if self.eng.wit[("%s_c%d" % (name, i))] < 32:
                self.eng.wit["%s_c%d" % (name, i)] = Fraction(97 + i)
            self.assume(c >= 32)
            self.assume(c <= 126)
            cs.append(c)
        return SStr(cs)

    def string_eq(self, s, t):
        return s.eq(t)

    def upper(self, s):
        return s.upper()

    def choice(self, name, n):
        return self.eng.choose(name, n)

    def gauss(self, i):
        return self.eng.new_var("g#%d" % i)

    def skip_draws(self):
        return self.eng.streams.get("g", 0)

    def random_state(self):
        """[draws from the global generator, permutations, reseedings, changes of the error handling] so far"""
        e = self.eng
        return [sum(n for s, n in e.streams.items() if not s.startswith("p")), e.nperm,
                len([s for s in e.seeds if s[0] == "seed"]), 0 if e.np_errors == e.ERRORS else 1]

    def exact(self, x):
        """a concrete number as used by the specification (no rounding)"""
        return Fraction(repr(x)) if isinstance(x, float) else x

    # ---- conditions
    def assume(self, b):
        from .terms import SBool
        if isinstance(b, (list, tuple)):
            for x in b:
                self.assume(x)
            return
        self.eng.assume(b)

    def check(self, b, label):
        from .engine import Obl
        from .terms import SBool
        import numpy as np
        if hasattr(b, "a") and getattr(b, "ndim", 1) == 0:
            b = b.a[()]
        if isinstance(b, (bool, np.bool_)):
            self.eng.obls.append(Obl(label, "true" if b else "false", None))
        else:
            self.eng.obls.append(Obl(label, "check", b))

    def le(self, a, b, label, strict=False):
        """a <= b (a < b)"""
        self.check(a < b if strict else a <= b, label)

    def false(self, label):
        from .engine import Obl
        self.eng.obls.append(Obl(label, "false", None))

    def eq(self, a, b, label):
        from .engine import Obl
        from .terms import lift, Unsupported, SReal
        la, lb = [], []
        sa, sb = self._leaves(a, la), self._leaves(b, lb)
        if sa != sb:
            self.false("%s: shape %s instead of %s" % (label, sa, sb))
            return
        for i, (x, y) in enumerate(zip(la, lb)):
            lab = label if len(la) == 1 else "%s[%d]" % (label, i)
            if _nonfinite(x):
                self.false("%s: not a finite number" % lab)
                continue
            try:
                x2 = lift(x) if not isinstance(x, (str, bytes, type(None))) else None
            except TypeError:
                x2 = None
            if x2 is None:
                self.false("%s: %r is not a number" % (lab, x))
                continue
            self.eng.obls.append(Obl(lab, "eq", x2, lift(y)))

    def _leaves(self, x, out):
        from .arr import SArr
        import numpy as np
        if isinstance(x, SArr):
            out.extend(x.a.ravel())
            return x.a.shape
        if isinstance(x, np.ndarray):
            out.extend(x.ravel().tolist())
            return x.shape
        if isinstance(x, (list, tuple)):
            sh = None
            for e in x:
                s = self._leaves(e, out)
                if sh is None:
                    sh = s
                elif sh != s:
                    return ("ragged",)
            return (len(x),) + (sh or ())
        out.append(x)
        return ()

    def leaves(self, x):
        out = []
        self._leaves(x, out)
        return out

    def shape(self, x):
        return self._leaves(x, [])

    def is_float(self, x, label):
        from .arr import SArr
        from .terms import SReal
        import numpy as np
        if isinstance(x, SArr):
            ok = x.dt == np.dtype("float64")
        elif isinstance(x, SReal):
            ok = x.kind == "f"
        else:
            ok = isinstance(x, float)
        if not ok:
            self.false("%s: not float64" % label)

    def snapshot(self, x):
        """the values now (lists of scalars)"""
        return self._tolist(x)

    def _tolist(self, x):
        from .arr import SArr
        if isinstance(x, SArr):
            return x.a.tolist()
        if isinstance(x, (list, tuple)):
            return [self._tolist(e) for e in x]
        return x

    def fill(self, x, xs):
        x[...] = self.array(xs)

    # ---- functions
    def sqrt(self, x):
        from . import terms
        return terms.ssqrt(terms.lift(x))

    def exp(self, x):
        from . import terms
        return terms.sexp(terms.lift(x))

    def tanh(self, x):
        from . import terms
        return terms.stanh(terms.lift(x))

    def abs(self, x):
        from . import terms
        return terms.sabs(terms.lift(x))

    def sign(self, x):
        from . import terms
        return terms.ssign(terms.lift(x))

    def log10(self, x):
        from . import terms
        return terms.slog10(terms.lift(x))

    def power(self, x, y):
        from . import terms
        return terms.spow(terms.lift(x), terms.lift(y))

    def max(self, xs):
        from . import terms
        return terms.smax(*xs)

    def ind(self, b):
        from . import terms
        return terms.sind(b)

    def ite(self, c, a, b):
        from . import terms
        return terms.site(c, a, b)

    def and_(self, *bs):
        from . import terms
        return terms.sand(*bs)

    def or_(self, *bs):
        from . import terms
        return terms.sor(*bs)

    def not_(self, b):
        from . import terms
        return terms.snot(b)

    def same(self, a, b):
        """a == b as a condition"""
        from . import terms
        return terms.scmp("eq", terms.lift(a), terms.lift(b))

    def inverse(self, M):
        from . import arr
        return [list(r) for r in arr.inverse_obj(arr.SArr.of(M, "float64").a)]

    def eigen(self, M):
        """eigenvalues and unit eigenvectors (columns) of a matrix with real ones"""
        from . import arr
        vals, vecs = arr.eig_atoms(arr.SArr.of(M, "float64"))
        return list(vals.a), [list(r) for r in vecs.a]

    def align(self, got, want):
        """the columns of want with the sign of those of got"""
        return want

    def gp_exceed(self, peaks, loc, x):
        """probability that the fitted generalized Pareto distribution exceeds x"""
        from .loader import SCIPY
        g = SCIPY.stats.genpareto
        from .arr import SArr
        c, l, s = g.fit(SArr.of(peaks), floc=loc)
        return 1 - g.cdf(x, c, loc, s)


def _const(c):
    from .terms import const
    return const(c)


def _nonfinite(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


_CANDS = {}


def _cands(loader):
    k = id(loader.sources) and tuple(sorted((p, hash(s)) for p, s in loader.sources.items()))
    if k not in _CANDS:
        _CANDS[k] = loader.strings()
    return _CANDS[k]


# ------------------------------------------------------------------ concrete
class ConcH(_Base):
    """the harness on the real package; env: name -> Fraction; choices: name -> int"""
    concrete = True

    def __init__(self, env, choices, pa, np):
        self.env = env
        self.choices = choices
        self.pa = pa
        self.np = np
        self.errors = np.geterr()
        self.np_state = None
        self.tol = choices.get("__tol__", 1e-5)
        self.unit = 0.0 if choices.get("__rel__") else 1.0        # errors relative to numbers below 1 as well?
        self.failed = []
        self.values = []
        self.rnd = random.Random(5)

    def finish(self):
        pass

    def fresh(self):
        mods = {m: v for m, v in sys.modules.items() if m == "padasip" or m.startswith("padasip.")}
        try:
            return fresh_real_package(os.path.dirname(os.path.dirname(os.path.realpath(self.pa.__file__))))
        finally:
            for m in [m for m in sys.modules if m == "padasip" or m.startswith("padasip.")]:
                del sys.modules[m]
            sys.modules.update(mods)

    def order_shuffles(self, f):
        self.rr.fixed = f

    def _val(self, name, kind="f"):
        v = self.env.get(name)
        if v is None:
            v = Fraction(self.rnd.randint(-16, 16), 8) if kind == "f" else Fraction(self.rnd.randint(-4, 4))
            self.env[name] = v
        return v

    def real(self, name, positive=False):
        v = float(self._val(name))
        if positive and not v > 0:
            raise Assumption(name)
        return self.np.float64(v) if self.choices.get("__np__") else v

    def int_(self, name, lo=None, hi=None):
        v = self._val(name, "i")
        if v.denominator != 1:
            raise Assumption(name)
        v = int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Assumption(name)
        return v

    def ints(self, name, n):
        return [self.int_("%s%d" % (name, i)) for i in range(n)]

    def narrow(self, name, shape, dtype):
        np = self.np
        lo, hi = int_range(np, dtype)
        xs = [self.int_("%s%d" % (name, k), lo, hi) for k in range(int(np.prod(shape)))]
        return np.array(xs, dtype=dtype).reshape(shape)

    def fortran(self, x):
        return self.np.asfortranarray(x)

    def array(self, xs, shape=None, dtype=None):
        np = self.np
        if shape is not None and 0 in shape:
            return np.zeros(shape)
        return np.array(xs, dtype=dtype or "float64")

    def asfloat(self, x):
        return float(x)

    def string(self, name, n):
        return "".join(chr(self.int_("%s_c%d" % (name, i), 32, 126)) for i in range(n))

    def string_eq(self, s, t):
        return s == t

    def upper(self, s):
        return s.upper()

    def choice(self, name, n):
        return self.choices.get(name, 0)

    def gauss(self, i):
        return self.gauss_value("g#%d" % i)

    def random_state(self):
        r, real = self.rr, self.np.random.get_state()
        real = (real[1].tobytes(), real[2:])
        if self.np_state is None:
            self.np_state = real
        return [sum(r.k.values()) + (real != self.np_state), r.nperm, r.nseed, 0 if self.np.geterr() == self.errors else 1]

    def gauss_value(self, name):
        v = self.env.get(name)
        if v is None:
            v = self.env[name] = Fraction(self.rnd.randint(-16, 16), 8)
        return float(v)

    def exact(self, x):
        return x

    # ---- conditions
    def assume(self, b):
        if isinstance(b, (list, tuple)):
            for x in b:
                self.assume(x)
            return
        if not b:
            raise Assumption()

    def check(self, b, label):
        if not bool(b):
            self.failed.append({"label": label})

    def le(self, a, b, label, strict=False):
        if not a <= b + 1e-7 * max(1.0, abs(a), abs(b)):
            self.failed.append({"label": label, "got": float(a), "expected": float(b)})

    def false(self, label):
        self.failed.append({"label": label})

    def eq(self, a, b, label):
        np = self.np
        try:
            x = np.asarray(a, dtype="float64") if not isinstance(a, float) else np.float64(a)
        except (TypeError, ValueError):
            self.failed.append({"label": label, "got": repr(a)[:200]})
            return
        y = np.asarray(b, dtype="float64")
        x = np.asarray(x)
        if x.shape != y.shape:
            self.failed.append({"label": label, "got_shape": list(x.shape), "expected_shape": list(y.shape)})
            return
        fx, fy = x.ravel(), y.ravel()
        for i in range(len(fx)):
            p, q = float(fx[i]), float(fy[i])
            self.values.append(p if math.isfinite(p) else None)
            if not abs(p - q) <= self.tol * max(self.unit, abs(p), abs(q)):
                if math.isfinite(q):             # a specification value that overflows is outside the claim
                    if len(self.failed) < 20:
                        self.failed.append({"label": label if len(fx) == 1 else "%s[%d]" % (label, i), "got": p, "expected": q})

    def leaves(self, x):
        return list(self.np.asarray(x).ravel())

    def shape(self, x):
        return self.np.shape(x)

    def is_float(self, x, label):
        if self.np.asarray(x).dtype != self.np.dtype("float64"):
            self.failed.append({"label": "%s: not float64" % label})

    def snapshot(self, x):
        if isinstance(x, (list, tuple)):
            return [self.snapshot(e) for e in x]
        return x.tolist() if hasattr(x, "tolist") else x

    def fill(self, x, xs):
        x[...] = self.np.array(xs, dtype="float64")

    # ---- functions
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else math.sqrt(max(0.0, x + 1e-9))

    def exp(self, x):
        return math.exp(x) if x < 700 else math.inf

    def tanh(self, x): return math.tanh(x)
    def abs(self, x): return abs(x)
    def sign(self, x): return float((x > 0) - (x < 0))
    def log10(self, x): return math.log10(abs(x)) if x else -math.inf

    def power(self, x, y):
        if x == 0:
            return 1.0 if y == 0 else 0.0
        return x ** y

    def max(self, xs): return max(xs)
    def ind(self, b): return 1.0 if b else 0.0
    def ite(self, c, a, b): return a if c else b
    def and_(self, *bs): return all(bs)
    def or_(self, *bs): return any(bs)
    def not_(self, b): return not b
    def same(self, a, b): return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

    def inverse(self, M):
        return self.np.linalg.inv(self.np.array(M, dtype="float64")).tolist()

    def eigen(self, M):
        vals, vecs = self.np.linalg.eig(self.np.array(M, dtype="float64"))
        return self.np.real(vals).tolist(), self.np.real(vecs).tolist()

    def align(self, got, want):
        np = self.np
        try:
            g, w = np.array(got, dtype="float64"), np.array(want, dtype="float64")
            s = np.sign(np.sum(g * w, axis=0))
            return (w * np.where(s == 0, 1, s)).tolist()
        except (TypeError, ValueError):
            return want

    def gp_exceed(self, peaks, loc, x):
        from scipy.stats import genpareto as g
        c, l, s = g.fit(self.np.array(peaks), floc=loc)
        return float(1 - g.cdf(x, c, loc, s))


# ------------------------------------------------------------------ running the real package
class RealRandom:
    """numpy.random functions replaced by assigned draws, so that a model fixes them too"""

    def __init__(self, h, np):
        self.h, self.np = h, np
        self.stream = "g"
        self.k = {}
        self.nperm = 0
        self.nseed = 0
        self.fixed = None

    def _draw(self, base, size, p0, p1):
        np = self.np
        name = self.stream + ("" if base == "normal" else "u")
        n = 1 if size is None else int(np.prod(size))
        out = np.empty(n)
        for i in range(n):
            k = self.k.get(name, 0)
            self.k[name] = k + 1
            out[i] = self.h.gauss_value("%s#%d" % (name, k))
        out = out if size is None else out.reshape(size)
        r = p0 + p1 * out if base == "normal" else p0 + (p1 - p0) * out
        return float(r[0]) if size is None else r

    def normal(self, loc=0.0, scale=1.0, size=None): return self._draw("normal", size, loc, scale)
    def standard_normal(self, size=None): return self._draw("normal", size, 0.0, 1.0)
    def randn(self, *sh): return self._draw("normal", sh if sh else None, 0.0, 1.0)
    def uniform(self, low=0.0, high=1.0, size=None): return self._draw("uniform", size, low, high)
    def random(self, size=None): return self._draw("uniform", size, 0.0, 1.0)
    def rand(self, *sh): return self._draw("uniform", sh if sh else None, 0.0, 1.0)

    def seed(self, *a):
        self.nseed += 1
        self.stream = "seeded%d" % self.nseed

    def _perm(self, n):
        k = self.nperm
        self.nperm += 1
        if self.fixed:
            return list(self.fixed(n))
        rest = list(range(n))
        out = []
        while rest:
            i = self.h.choices.get("perm%d_%d" % (k, len(out)), 0) if len(rest) > 1 else 0
            out.append(rest.pop(min(i, len(rest) - 1)))
        return out

    def shuffle(self, x):
        p = self._perm(len(x))
        if isinstance(x, list):
            x[:] = [x[i] for i in p]
        else:
            x[...] = x[p].copy()

    def permutation(self, x):
        if isinstance(x, (int, self.np.integer)):
            return self.np.array(self._perm(int(x)), dtype=int)
        x = self.np.asarray(x)
        return x[self._perm(len(x))]

    NAMES = "normal standard_normal randn uniform random rand seed shuffle permutation".split()

    def __enter__(self):
        self.saved = {n: getattr(self.np.random, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(self.np.random, n, getattr(self, n))

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(self.np.random, n, f)


def fresh_real_package(repo):
    for m in [m for m in sys.modules if m == "padasip" or m.startswith("padasip.")]:
        del sys.modules[m]
    if repo not in sys.path:
        sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import padasip
    if not os.path.realpath(padasip.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError("padasip was imported from %s" % padasip.__file__)
    return padasip


def run_concrete(fn, env, choices, repo):
    """{'status': ok | violated | assumption | error}"""
    import numpy as np
    env = {k: Fraction(v) for k, v in env.items()}
    with warnings.catch_warnings(), np.errstate(divide="warn", over="warn", under="ignore", invalid="warn"):
        warnings.simplefilter("ignore")
        pa = fresh_real_package(repo)
        h = ConcH(env, choices, pa, np)
        h.rr = RealRandom(h, np)
        with h.rr:
            try:
                fn(h)
            except Assumption:
                return {"status": "assumption", "failed": [], "values": []}
            except Exception as e:
                h.failed.append({"label": "unexpected exception %s: %s" % (type(e).__name__, str(e)[:200])})
    return {"status": "violated" if h.failed else "ok", "failed": h.failed, "values": h.values}
