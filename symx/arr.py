"""SArr: numpy array look-alike over SReal elements.

The storage is a real numpy object array, so shapes, views, aliasing, overlapping copies,
broadcasting and fancy indexing are numpy's own; the logical dtype is tracked separately with
numpy's own promotion and casting rules (storing a float in an integer array truncates, an
in-place operation that numpy would refuse is refused)."""
from fractions import Fraction
import functools
import itertools
import math
import warnings

import numpy as _np

from . import terms

from .terms import (nonfinite, nf_cmp, nf_apply, SReal, SBool, Unsupported, fail, lift, const, cast_scalar, norm_dtype, scmp, snot,
                    sand, sor, sadd, ssub, smul, sdiv, spow, sabs, ssign, smax, smin, site, sind, sfloor,
                    ssqrt, sexp, stanh, slog, slog10, strunc, siff, NUM, Ctx, uf, ZERO, ONE, atom, pkey,
                    ATOMS)

warnings.filterwarnings("ignore", category=RuntimeWarning, module=r"symx\.")

DT_F = _np.dtype("float64")
DT_I = _np.dtype("int64")
DT_B = _np.dtype(bool)
BOOLS = (bool, _np.bool_, SBool)
SCALARS = (SReal, SBool) + NUM


def box(x):
    z = _np.empty((), dtype=object)
    z[()] = x
    return z


def is_symbolic_scalar(x):
    return isinstance(x, (SReal, SBool))


def scalar_dt(x):
    """weak type for promotion"""
    if isinstance(x, SBool) or isinstance(x, (bool, _np.bool_)):
        return DT_B
    if isinstance(x, SReal):
        return int if x.kind == "i" else float
    if isinstance(x, _np.generic):
        return x.dtype
    if isinstance(x, int):
        return int
    return float


def elem(x, dt):
    """python/numpy/symbolic scalar -> array element for dtype dt"""
    if dt.kind == "b":
        if isinstance(x, _np.bool_):
            return bool(x)
        return cast_scalar(x, dt)
    if isinstance(x, str):
        x = float(x)
    return cast_scalar(x, dt)


def _leaves(x):
    """nested sequence -> (shape, list of leaves)"""
    if isinstance(x, SArr):
        return x.a.shape, list(x.a.ravel())
    if isinstance(x, _np.ndarray):
        return x.shape, list(x.ravel())
    if isinstance(x, SCALARS) or isinstance(x, (str, bytes)) or x is None:
        return (), [x]
    if isinstance(x, dict) or isinstance(x, set) or isinstance(x, frozenset):
        return (), [x]
    if hasattr(x, "__len__") and hasattr(x, "__getitem__"):
        xs = [x[i] for i in range(len(x))]
        if not xs:
            return (0,), []
        parts = [_leaves(e) for e in xs]
        sh = parts[0][0]
        for s, _ in parts:
            if s != sh:
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape after 1 dimensions.")
        out = []
        for _, l in parts:
            out.extend(l)
        return (len(xs),) + sh, out
    return (), [x]


def _obj(shape, leaves):
    a = _np.empty(len(leaves), dtype=object)
    for i, l in enumerate(leaves):
        a[i] = l
    return a.reshape(shape)


def leaf_dtype(leaves, src=None):
    if isinstance(src, SArr):
        return src.dt
    if isinstance(src, _np.ndarray) and src.dtype != object:
        return src.dtype
    if not leaves:
        return DT_F
    dts = set()
    for l in leaves:
        if isinstance(l, SReal):
            dts.add(DT_I if l.kind == "i" else DT_F)
        elif isinstance(l, BOOLS):
            dts.add(DT_B)
        elif isinstance(l, _np.generic):
            dts.add(l.dtype)
        elif isinstance(l, int):
            dts.add(DT_I)
        elif isinstance(l, (float, Fraction)):
            dts.add(DT_F)
        else:
            return None
    return functools.reduce(_np.promote_types, dts)


class SArr:
    __slots__ = ("a", "dt")
    __array_ufunc__ = None
    __array_priority__ = 2000.0
    __hash__ = None

    def __init__(self, a, dt):
        self.a = a
        self.dt = dt

    # ---- construction
    @staticmethod
    def of(x, dtype=None, copy=True):
        """numpy.array"""
        dtype = norm_dtype(dtype)
        if isinstance(x, SArr) and (dtype is None or dtype == x.dt):
            return SArr(x.a.copy(), x.dt) if copy else x
        shape, leaves = _leaves(x)
        dt = dtype if dtype is not None else leaf_dtype(leaves, x)
        if isinstance(x, (list, tuple)) and dtype is None and any(isinstance(e, (SArr, _np.ndarray)) for e in x):
            sub = [e.dt if isinstance(e, SArr) else e.dtype if isinstance(e, _np.ndarray) else leaf_dtype([e]) for e in x]
            if all(s is not None for s in sub):
                dt = functools.reduce(_np.promote_types, sub)
        if dt is None or dt.kind not in "fiubc":
            if any(isinstance(l, (SReal, SBool)) for l in leaves):
                fail("array mixing symbolic numbers and other objects")
            return _np.array(x, dtype=dtype)
        if dt.kind in "iu" and dtype is not None:
            for l in leaves:
                if isinstance(l, (str, bytes)):
                    int(l)
        return SArr(_obj(shape, [elem(l, dt) for l in leaves]), dt)

    @staticmethod
    def full(shape, value, dt=DT_F):
        a = _np.empty(shape, dtype=object)
        v = elem(value, dt)
        a[...] = box(v) if a.ndim else box(v)
        if a.ndim == 0:
            a[()] = v
        return SArr(a, dt)

    # ---- attributes
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return self.dt

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def nbytes(self):
        return self.dt.itemsize * self.a.size

    @property
    def strides(self):
        return self.a.strides

    @property
    def flags(self):
        return self.a.flags

    @property
    def base(self):
        return self.a.base

    @property
    def real(self):
        return SArr(self.a, self.dt)

    @property
    def imag(self):
        return self * 0

    @property
    def T(self):
        return SArr(self.a.T, self.dt)

    mT = T

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SArr.full(self.a.shape, 0, self.dt)

    @property
    def flat(self):
        return _Flat(self)

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(len(self.a)))

    def __contains__(self, v):
        return bool(self.__eq__(v).any())

    def __repr__(self):
        return "SArr(%s, %s)" % (self.a.tolist(), self.dt)

    def __format__(self, spec):
        return repr(self)

    # ---- indexing
    def __getitem__(self, idx):
        r = self.a[conv_index(idx)]
        if isinstance(r, _np.ndarray):
            return SArr(r, self.dt)
        return r

    def __setitem__(self, idx, v):
        idx = conv_index(idx)
        if isinstance(v, (list, tuple, range)):
            v = SArr.of(v)
        tgt = self.a[idx] if self.a.ndim else None
        scalar_target = not isinstance(tgt, _np.ndarray)
        if isinstance(v, (SArr, _np.ndarray)):
            va = v.a if isinstance(v, SArr) else v
            if scalar_target and self.a.ndim:
                if va.ndim:
                    raise ValueError("setting an array element with a sequence.")
                self.a[idx] = elem(va[()], self.dt)
                return
            c = cast_obj(va, v.dt if isinstance(v, SArr) else None, self.dt)
            self.a[idx] = c
            return
        if not isinstance(v, SCALARS) and not isinstance(v, (str, bytes)):
            if v is None and self.dt.kind == "f":
                fail("nan stored")
            raise TypeError("float() argument must be a string or a real number, not %r" % type(v).__name__)
        e = elem(v, self.dt)
        if scalar_target and self.a.ndim:
            self.a[idx] = e
        else:
            self.a[idx] = box(e)

    # ---- methods
    def copy(self, order="C"):
        return SArr(self.a.copy(), self.dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        dt = norm_dtype(dt)
        if dt == self.dt and not copy:
            return self
        if dt.kind not in "fiubc":
            fail("astype(%s)" % dt)
        return SArr(cast_obj(self.a, self.dt, dt), dt)

    def _w(self, r):
        return SArr(r, self.dt) if isinstance(r, _np.ndarray) else r

    def reshape(self, *shape, order="C", **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if "shape" in kw:
            shape = kw["shape"]
        shape = tuple(int(s) for s in shape)
        return SArr(self.a.reshape(shape, order=order), self.dt)

    def ravel(self, order="C"):
        return SArr(self.a.ravel(order), self.dt)

    def flatten(self, order="C"):
        return SArr(self.a.flatten(order), self.dt)

    def squeeze(self, axis=None):
        return SArr(_np.asarray(self.a.squeeze(axis), dtype=object), self.dt)

    def transpose(self, *axes):
        return SArr(self.a.transpose(*axes), self.dt)

    def swapaxes(self, a, b):
        return SArr(self.a.swapaxes(a, b), self.dt)

    def diagonal(self, *a, **k):
        return SArr(self.a.diagonal(*a, **k).copy(), self.dt)

    def view(self, *a):
        if a:
            fail("view with arguments")
        return SArr(self.a.view(), self.dt)

    def repeat(self, *a, **k):
        return SArr(self.a.repeat(*a, **k), self.dt)

    def take(self, idx, axis=None, **k):
        return self._w(self.a.take(conv_index(idx), axis=axis))

    def resize(self, *shape, **k):
        fail("ndarray.resize")

    def tolist(self):
        return self.a.tolist()

    def item(self, *args):
        return self.a.item(*args)

    def fill(self, v):
        self.a[...] = box(elem(v, self.dt))

    def conj(self):
        return self.copy()

    conjugate = conj

    def nonzero(self):
        return tuple(SArr.of(x) for x in concrete_bools(self).nonzero())

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_sum(self, axis, keepdims, dtype, out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_fn(self, smul_all, axis, keepdims, out, sum_dtype(self.dt))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_mean(self, axis, keepdims, out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return reduce_var(self, axis, k.get("correction", ddof), keepdims, out)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        v = reduce_var(self, axis, k.get("correction", ddof), keepdims, None)
        return store_out(elementwise(ssqrt, [v], DT_F), out)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_fn(with_initial(self, k), smax_all, axis, keepdims, out, self.dt)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_fn(with_initial(self, k), smin_all, axis, keepdims, out, self.dt)

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_fn(self, sor_all, axis, keepdims, out, DT_B, empty_ok=True)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_fn(self, sand_all, axis, keepdims, out, DT_B, empty_ok=True)

    def cumsum(self, axis=None, **k):
        dt = sum_dtype(self.dt)
        return SArr(_np.add.accumulate(cast_obj(self.a.ravel() if axis is None else self.a, self.dt, dt), axis=axis or 0), dt)

    def cumprod(self, axis=None, **k):
        dt = sum_dtype(self.dt)
        return SArr(_np.multiply.accumulate(cast_obj(self.a.ravel() if axis is None else self.a, self.dt, dt), axis=axis or 0), dt)

    def argsort(self, axis=-1, kind=None, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, **k):
        self.a[...] = sort(self, axis).a

    def argmax(self, axis=None, **k):
        return arg_best(self, axis, lambda x, y: scmp("lt", x, y))

    def argmin(self, axis=None, **k):
        return arg_best(self, axis, lambda x, y: scmp("lt", y, x))

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = UFUNCS["maximum"](r, min)
        if max is not None:
            r = UFUNCS["minimum"](r, max)
        return store_out(r, out)

    def round(self, decimals=0, out=None):
        return elementwise(lambda x: round(lift(x), decimals), [self], self.dt)

    def dot(self, o, out=None):
        return dot(self, o)

    def trace(self, *a, **k):
        return reduce_sum(SArr(self.a.diagonal(*a, **k).copy(), self.dt), -1, False)

    def searchsorted(self, *a, **k):
        fail("searchsorted")

    def tobytes(self, *a):
        fail("tobytes")

    def __array__(self, dtype=None, copy=None):
        # reached only from inside numpy functions on containers of SArr
        return self.a

    # ---- conversions
    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(self.a.item())

    def _only(self):
        if self.a.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return self.a.item()

    def __float__(self):
        return float(self._only())

    def __int__(self):
        return int(self._only())

    def __index__(self):
        if self.a.ndim or self.dt.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.a.item().__index__()


class _Flat:
    def __init__(self, s):
        self.s = s

    def __iter__(self):
        return iter(self.s.a.ravel())

    def __len__(self):
        return self.s.a.size

    def __getitem__(self, i):
        return self.s._w(self.s.a.flat[conv_index(i)])

    def __setitem__(self, i, v):
        if isinstance(v, (SArr, list, tuple)):
            v = cast_obj(SArr.of(v).a, None, self.s.dt)
        else:
            v = box(elem(v, self.s.dt))
        self.s.a.flat[conv_index(i)] = v


# ---------------------------------------------------------------- helpers
def concrete_bools(x):
    f = _np.frompyfunc(lambda e: bool(e), 1, 1)
    r = f(x.a)
    return _np.asarray(r, dtype=bool)


def conv_index(i):
    if isinstance(i, tuple):
        return tuple(conv_index(e) for e in i)
    if isinstance(i, SArr):
        if i.dt.kind == "b":
            return concrete_bools(i)
        if i.dt.kind in "iu":
            return _np.asarray(_np.frompyfunc(lambda e: int(e.__index__()), 1, 1)(i.a), dtype=int) if i.a.size else \
                _np.zeros(i.a.shape, dtype=int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, SReal):
        if i.kind != "i":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer "
                             "or boolean arrays are valid indices")
        return i.__index__()
    if isinstance(i, SBool):
        return bool(i)
    if isinstance(i, slice):
        g = lambda e: e.__index__() if isinstance(e, (SReal, SArr)) else e
        return slice(g(i.start), g(i.stop), g(i.step))
    if isinstance(i, (list, range)):
        if len(i) == 0:
            return _np.zeros(0, dtype=int)
        s = SArr.of(list(i))
        return conv_index(s) if isinstance(s, SArr) else s
    return i


def cast_obj(a, frm, to):
    """object array of elements -> object array of elements for dtype `to` (always a new array)"""
    out = _np.empty(a.shape, dtype=object)
    fo = out.reshape(-1) if out.size else out
    if out.size:
        src = a.ravel() if isinstance(a, _np.ndarray) else a
        for i, x in enumerate(src):
            fo[i] = elem(x, to)
        if out.ndim == 0:
            out[()] = fo[0]
    return out


def to_arr(x):
    """any array_like -> SArr (or the real ndarray for non numeric data)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, SCALARS):
        dt = scalar_dt(x)
        dt = DT_I if dt is int else DT_F if dt is float else dt
        return SArr(box(elem(x, dt)), dt)
    if isinstance(x, _Flat):
        return SArr(x.s.a.ravel(), x.s.dt)
    return SArr.of(x, copy=False)


def store_out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out, = out
        if out is None:
            return r
    out[...] = r
    return out


def finish(r, dt):
    """result of an object computation -> SArr or scalar"""
    if isinstance(r, _np.ndarray):
        if narrow(dt) or narrow_float(dt):
            f = terms.wrap_int if narrow(dt) else cast_scalar
            w = _np.empty(r.shape, dtype=object)
            for i in _np.ndindex(*r.shape):
                w[i] = f(r[i], dt)
            r = w
        if r.ndim == 0:
            return r[()]
        return SArr(r, dt)
    if narrow_float(dt) and isinstance(r, SReal):
        return cast_scalar(r, dt)
    return terms.wrap_int(r, dt) if narrow(dt) and isinstance(r, (SReal, int)) else r


def narrow_float(dt):
    return dt is not None and dt.kind == "f" and dt.itemsize < 8


def narrow(dt):
    """integer types in which results wrap around (64-bit integers are taken as unbounded)"""
    return dt is not None and dt.kind in "iu" and dt.itemsize < 8


def elementwise(fn, args, dt, nd=None):
    """apply fn over broadcast elements"""
    conv = []
    for x in args:
        if isinstance(x, SArr):
            conv.append(x.a)
        elif isinstance(x, SCALARS):
            conv.append(box(x))
        elif isinstance(x, _np.ndarray):
            conv.append(x.astype(object))
        else:
            y = to_arr(x)
            conv.append(y.a if isinstance(y, SArr) else y.astype(object))
    r = _np.frompyfunc(fn, len(conv), 1)(*conv)
    return finish(r, dt)


def sum_dtype(dt):
    return DT_I if dt.kind == "b" or narrow(dt) else dt


def norm_axis(axis):
    if isinstance(axis, (SReal, SArr)):
        return axis.__index__()
    if isinstance(axis, (tuple, list)):
        return tuple(norm_axis(a) for a in axis)
    return axis


def reduce_sum(x, axis, keepdims, dtype=None, out=None):
    x = to_arr(x)
    dt = norm_dtype(dtype) or sum_dtype(x.dt)
    a = cast_obj(x.a, x.dt, dt)
    if a.ndim == 0:
        return a[()]
    axis = norm_axis(axis)
    if a.size == 0:
        sh = _np.add.reduce(_np.zeros(a.shape), axis=axis, keepdims=keepdims)
        r = SArr.full(sh.shape, 0, dt)
        return store_out(finish(r.a, dt), out)
    r = _np.add.reduce(a, axis=axis, keepdims=keepdims)
    return store_out(finish(r, dt), out)


def reduce_fn(x, fn, axis, keepdims, out, dt, empty_ok=False):
    """fn: list of elements -> element"""
    x = to_arr(x)
    a = x.a
    axis = norm_axis(axis)
    if a.ndim == 0:
        return fn([a[()]])
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = tuple(ax % a.ndim if -a.ndim <= ax < a.ndim else _axis_error(ax, a.ndim)
                     for ax in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes))
    rsh = tuple(a.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= a.shape[i]
    if n == 0 and not empty_ok:
        raise ValueError("zero-size array to reduction operation which has no identity")
    b = b.reshape(rsh + (n,))
    out_a = _np.empty(rsh, dtype=object)
    for ix in _np.ndindex(*rsh):
        out_a[ix] = fn(list(b[ix]))
    if keepdims:
        out_a = out_a.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return store_out(finish(out_a, dt), out)


def _axis_error(ax, nd):
    raise _np.exceptions.AxisError(ax, nd)


def with_initial(x, k):
    x = to_arr(x)
    if "initial" in k and k["initial"] is not None:
        fail("reduction with initial")
    if "where" in k and k["where"] is not True:
        fail("reduction with where")
    return x


def smax_all(l): return smax(*l)
def smin_all(l): return smin(*l)
def smul_all(l): return functools.reduce(smul, [lift(e) for e in l], const(1, "i"))
def to_b(e): return e if isinstance(e, BOOLS) else cast_scalar(e, DT_B)
def sor_all(l): return sor(*[to_b(e) for e in l])
def sand_all(l): return sand(*[to_b(e) for e in l])


def count_axis(x, axis):
    if axis is None:
        return x.a.size
    n = 1
    for ax in (axis if isinstance(axis, tuple) else (axis,)):
        n *= x.a.shape[ax]
    return n


def reduce_mean(x, axis, keepdims, out=None):
    x = to_arr(x)
    axis = norm_axis(axis)
    n = count_axis(x, axis)
    if n == 0:
        fail("mean of an empty slice")
    s = reduce_sum(x, axis, keepdims, DT_F if x.dt.kind in "iub" else None)
    return store_out(binop("true_divide", s, n), out)


def reduce_var(x, axis, ddof, keepdims, out=None):
    x = to_arr(x)
    axis = norm_axis(axis)
    n = count_axis(x, axis)
    m = reduce_mean(x, axis, True) if x.a.ndim else x
    d = binop("subtract", x, m)
    d2 = binop("multiply", d, d)
    s = reduce_sum(d2, axis, keepdims)
    dd = n - ddof if not isinstance(ddof, SReal) else const(n, "i") - ddof
    if not isinstance(dd, SReal) and dd <= 0:
        fail("variance with non-positive degrees of freedom")
    return store_out(binop("true_divide", s, dd), out)


class _K:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        r = scmp("lt", lift(self.v), lift(o.v))
        return r if isinstance(r, bool) else bool(r)


def argsort(x, axis=-1):
    x = to_arr(x)
    a = x.a
    if axis is None:
        a = a.ravel()
        axis = -1
    if a.ndim == 0:
        return SArr.of([0])
    b = _np.moveaxis(a, axis, -1)
    out = _np.empty(b.shape, dtype=object)
    for ix in _np.ndindex(*b.shape[:-1]):
        row = b[ix]
        order = sorted(range(len(row)), key=lambda i: _K(row[i]))
        for j, i in enumerate(order):
            out[ix + (j,)] = const(i, "i")
    return SArr(_np.moveaxis(out, -1, axis), DT_I)


def sort(x, axis=-1):
    x = to_arr(x)
    a = x.a
    if axis is None:
        a = a.ravel()
        axis = -1
    b = _np.moveaxis(a, axis, -1)
    out = _np.empty(b.shape, dtype=object)
    for ix in _np.ndindex(*b.shape[:-1]):
        row = [k.v for k in sorted(_K(e) for e in b[ix])]
        for j, e in enumerate(row):
            out[ix + (j,)] = e
    return SArr(_np.moveaxis(out, -1, axis).copy(), x.dt)


def arg_best(x, axis, worse):
    x = to_arr(x)
    a = x.a

    def best(row):
        if not len(row):
            raise ValueError("attempt to get argmax of an empty sequence")
        b = 0
        for i in range(1, len(row)):
            r = worse(lift(row[b]), lift(row[i]))
            if r if isinstance(r, bool) else bool(r):
                b = i
        return const(b, "i")
    if axis is None:
        return best(list(a.ravel()))
    b = _np.moveaxis(a, axis, -1)
    out = _np.empty(b.shape[:-1], dtype=object)
    for ix in _np.ndindex(*b.shape[:-1]):
        out[ix] = best(list(b[ix]))
    return finish(out, DT_I)


# ---------------------------------------------------------------- products
def prod_dt(a, b):
    r = _np.promote_types(a.dt, b.dt)
    return r


def _mm_obj(x, dt):
    """elements as numbers (bool products are rare)"""
    return cast_obj(x.a, x.dt, dt if dt.kind != "b" else DT_I)


def _weak(x):
    return isinstance(x, SCALARS) or (isinstance(x, SArr) and x.a.ndim == 0)


def dot(a, b, out=None):
    if _weak(a) or _weak(b):
        return binop("multiply", a, b)
    a, b = to_arr(a), to_arr(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        fail("dot of non numeric arrays")
    dt = prod_dt(a, b)
    r = _zero_safe(_np.dot, a, b, dt)
    return store_out(finish(r, dt), out)


def _zero_safe(f, a, b, dt):
    if a.a.size == 0 or b.a.size == 0:
        sh = f(_np.zeros(a.a.shape), _np.zeros(b.a.shape))
        z = _np.empty(_np.shape(sh), dtype=object)
        z[...] = box(const(0, "f" if dt.kind == "f" else "i"))
        return z
    return f(_mm_obj(a, dt), _mm_obj(b, dt))


def matmul(a, b, out=None):
    a, b = to_arr(a), to_arr(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        fail("matmul of non numeric arrays")
    dt = prod_dt(a, b)
    if a.a.ndim == 0 or b.a.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    r = _zero_safe(_np.matmul, a, b, dt)
    return store_out(finish(r, dt), out)


# ---------------------------------------------------------------- ufuncs
def _rdt(name, args):
    u = getattr(_np, name)
    dts = []
    for x in args:
        if isinstance(x, SArr):
            dts.append(x.dt)
        elif isinstance(x, _np.ndarray):
            dts.append(x.dtype)
        else:
            dts.append(scalar_dt(x))
    if all(not isinstance(d, _np.dtype) or d == DT_B for d in dts):
        dts = [DT_I if d is int else DT_F if d is float else d for d in dts]
    return _resolve(u, tuple(dts))


@functools.lru_cache(None)
def _resolve(u, dts):
    return u.resolve_dtypes(dts + (None,) * u.nout)[-1]


_NF_OPS = {"add": "add", "subtract": "sub", "multiply": "mul", "true_divide": "div", "divide": "div", "negative": "neg", "absolute": "abs",
           "abs": "abs", "fabs": "abs"}


def num(fn, name=None):
    def f(*xs):
        if any(nonfinite(x) for x in xs):
            return nf_ufunc(name, *xs)
        return fn(*[lift(x) for x in xs])
    f.fn = fn
    return f


def nf_ufunc(name, *xs):
    """a ufunc on infinities and NaN"""
    if name in _NF_OPS:
        return nf_apply(_NF_OPS[name], *[x if nonfinite(x) else lift(x) for x in xs])
    if name is not None and len(xs) == 1:
        with _np.errstate(all="ignore"):
            r = getattr(_np, name)(float(xs[0]))
        if nonfinite(r):
            return float(r)
        if r == int(r):
            return const(int(r))
    if name == "square":
        return math.nan if xs[0] != xs[0] else math.inf
    if name == "power" and nonfinite(xs[0]) and xs[0] != xs[0] and not nonfinite(xs[1]) and lift(xs[1]).is_const() and lift(xs[1]).p:
        return math.nan
    fail("non-finite number in the computation")


def boolean(fn):
    return lambda *xs: fn(*[to_b(x) for x in xs])


def _eq(x, y):
    if isinstance(x, BOOLS) and isinstance(y, BOOLS):
        return siff(x, y) if not (isinstance(x, (bool, _np.bool_)) and isinstance(y, (bool, _np.bool_))) else bool(x) == bool(y)
    if nonfinite(x) or nonfinite(y):
        return nf_cmp("eq", x, y)
    return scmp("eq", lift(x), lift(y))


def _xor(a, b):
    return snot(siff(a, b)) if isinstance(a, SBool) or isinstance(b, SBool) else bool(a) != bool(b)


def _bit(op_b, name):
    def f(x, y):
        if isinstance(x, BOOLS) and isinstance(y, BOOLS):
            return op_b(x, y)
        x, y = lift(x), lift(y)
        if x.is_const() and y.is_const():
            return const(getattr(int, name)(int(x.const()), int(y.const())), "i")
        fail("bitwise operation on symbolic integers")
    return f


def _not_(x):
    return snot(x) if isinstance(x, BOOLS) else const(~int(lift(x).const()), "i")


def _nonneg_div(x, y):
    return sdiv(x, y)


def _strig(name):
    return lambda x: (const(0) if not x.p and name in ("sin", "arctan", "arcsin", "sinh", "arcsinh", "arctanh", "tan") else uf(name, x))


def _spow(x, y):
    if x.kind == "i" and y.kind == "i" and y.is_const() and y.const() < 0:
        raise ValueError("Integers to negative integer powers are not allowed.")
    return spow(x, y)


def _cmp(rel, swap=False, neg=False):
    def f(x, y):
        if swap:
            x, y = y, x
        if nonfinite(x) or nonfinite(y):
            r = nf_cmp(rel, x, y)
        else:
            r = scmp(rel, lift(x), lift(y))
        return snot(r) if neg else r
    return f


def _fminmax(fn):
    return lambda x, y: y if nonfinite(x) and x != x else x if nonfinite(y) and y != y else fn(x, y)


TABLE = {
    "add": num(sadd), "subtract": num(ssub), "multiply": num(smul), "true_divide": num(sdiv), "divide": num(sdiv),
    "floor_divide": num(lambda x, y: x // y), "remainder": num(lambda x, y: x % y), "mod": num(lambda x, y: x % y),
    "power": num(_spow), "float_power": num(spow), "negative": num(lambda x: -x), "positive": num(lambda x: x),
    "absolute": num(sabs), "abs": num(sabs), "fabs": num(sabs), "sign": num(ssign), "square": num(lambda x: spow(x, const(2, "i"))),
    "sqrt": num(ssqrt), "exp": num(sexp), "expm1": num(lambda x: ssub(sexp(x), ONE)), "exp2": num(lambda x: spow(const(2), x)),
    "log": num(slog), "log10": num(slog10), "log2": num(lambda x: sdiv(slog10(x), slog10(const(2)))),
    "log1p": num(lambda x: slog(sadd(x, ONE))), "tanh": num(stanh),
    "cosh": num(lambda x: sdiv(sadd(sexp(x), sexp(-x)), const(2))), "sinh": num(lambda x: sdiv(ssub(sexp(x), sexp(-x)), const(2))),
    "reciprocal": num(lambda x: sdiv(ONE, x)), "maximum": smax, "minimum": smin, "fmax": _fminmax(smax), "fmin": _fminmax(smin),
    "less": _cmp("lt"), "less_equal": _cmp("le"), "greater": _cmp("lt", True), "greater_equal": _cmp("le", True),
    "equal": _eq, "not_equal": lambda x, y: snot(_eq(x, y)),
    "logical_and": boolean(lambda x, y: sand(x, y)), "logical_or": boolean(lambda x, y: sor(x, y)),
    "logical_not": boolean(lambda x: snot(x)), "logical_xor": boolean(_xor),
    "bitwise_and": _bit(sand, "__and__"), "bitwise_or": _bit(sor, "__or__"), "bitwise_xor": _bit(_xor, "__xor__"),
    "invert": _not_, "bitwise_not": _not_,
    "isnan": lambda x: nonfinite(x) and x != x, "isinf": lambda x: nonfinite(x) and x == x,
    "isfinite": lambda x: not nonfinite(x),
    "floor": num(sfloor), "ceil": num(lambda x: -sfloor(-x)), "trunc": num(lambda x: SReal(strunc(x).p, "f", "id", (strunc(x),))),
    "rint": num(round), "hypot": num(lambda x, y: ssqrt(sadd(smul(x, x), smul(y, y)))),
    "conjugate": num(lambda x: x), "conj": num(lambda x: x),
    "heaviside": num(lambda x, h: site(scmp("eq", x, ZERO), h, sind(scmp("lt", ZERO, x)))),
    "copysign": num(lambda x, y: site(scmp("lt", y, ZERO), -sabs(x), sabs(x))),
    "signbit": num(lambda x: scmp("lt", x, ZERO)),
}
for _n in list(TABLE):
    if hasattr(TABLE[_n], "fn"):
        TABLE[_n] = num(TABLE[_n].fn, _n)
for _n in ("sin cos tan arcsin arccos arctan sinh arcsinh arccosh arctanh cbrt".split()):
    TABLE.setdefault(_n, num(_strig(_n)))


def _is_ndstr(x):
    return isinstance(x, _np.ndarray) and x.dtype.kind in "USO"


def binop(name, *args, out=None, where=True, **kw):
    args = tuple(x if isinstance(x, (SArr,) + SCALARS) or _is_ndstr(x) else to_arr(x) for x in args)
    if any(_is_ndstr(x) or isinstance(x, str) for x in args):
        if any(isinstance(x, SArr) for x in args):
            if name in ("equal", "not_equal"):
                sh = _np.broadcast_shapes(*[_np.shape(x.a if isinstance(x, SArr) else x) for x in args])
                return SArr.full(sh, name == "not_equal", DT_B)
            raise TypeError("ufunc %r did not contain a loop with signature matching types" % name)
        return getattr(_np, name)(*args)
    dt = _rdt(name, args)
    if kw.get("dtype") is not None:
        dt = norm_dtype(kw["dtype"])
    r = elementwise(TABLE[name], args, dt)
    if where is not True:
        if out is None:
            fail("ufunc where without out")
        o = out[0] if isinstance(out, tuple) else out
        w = where_fn(where, r, o)
        o[...] = w
        return o
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None and not _np.can_cast(dt, o.dt, "same_kind"):
            raise TypeError("Cannot cast ufunc %r output from %r to %r with casting rule 'same_kind'" % (name, dt, o.dt))
    return store_out(r, out)


def where_fn(c, x=None, y=None):
    if x is None:
        return tuple(SArr.of(i) for i in _np.nonzero(concrete_bools(to_arr(c))))
    c = to_arr(c) if not isinstance(c, BOOLS) else c

    def wdt(v):
        if isinstance(v, SArr):
            return v.dt
        d = scalar_dt(v)
        return d
    x = x if isinstance(x, (SArr,) + SCALARS) else to_arr(x)
    y = y if isinstance(y, (SArr,) + SCALARS) else to_arr(y)
    dts = [wdt(x), wdt(y)]
    if all(isinstance(d, _np.dtype) for d in dts):
        dt = _np.promote_types(*dts)
    else:
        dt = _resolve(_np.add, tuple(DT_I if d is int else DT_F if d is float else d for d in dts)) \
            if all(not isinstance(d, _np.dtype) for d in dts) else _np.result_type(
                *[d if isinstance(d, _np.dtype) else (0 if d is int else 0.0) for d in dts])

    def f(cc, a, b):
        cc = to_b(cc)
        if dt.kind == "b":
            if isinstance(cc, (bool, _np.bool_)):
                return a if cc else b
            return sor(sand(cc, a), sand(snot(cc), b))
        r = site(cc, elem(a, dt), elem(b, dt))
        return r
    return elementwise(f, [c, x, y], dt)


class UF:
    """numpy ufunc stand-in"""

    def __init__(self, name):
        self.name = name
        self.__name__ = name
        self.real = getattr(_np, name)
        self.nin, self.nout, self.nargs = self.real.nin, self.real.nout, self.real.nargs
        self.identity = self.real.identity

    def __call__(self, *args, **kw):
        if len(args) > self.nin:
            kw["out"] = args[self.nin]
            args = args[:self.nin]
        return binop(self.name, *args, **kw)

    def reduce(self, x, axis=0, dtype=None, out=None, keepdims=False, **k):
        x = with_initial(x, k)
        n = self.name
        if n == "add":
            return x.sum(axis=axis, dtype=dtype, out=out, keepdims=keepdims)
        if n in ("maximum", "fmax"):
            return x.max(axis=axis, out=out, keepdims=keepdims)
        if n in ("minimum", "fmin"):
            return x.min(axis=axis, out=out, keepdims=keepdims)
        if n == "multiply":
            return x.prod(axis=axis, out=out, keepdims=keepdims)
        if n == "logical_and":
            return x.all(axis=axis, out=out, keepdims=keepdims)
        if n == "logical_or":
            return x.any(axis=axis, out=out, keepdims=keepdims)
        fn = TABLE[n]
        return reduce_fn(x, lambda l: functools.reduce(fn, l), axis, keepdims, out, x.dt)

    def accumulate(self, x, axis=0, **k):
        x = to_arr(x)
        fn = TABLE[self.name]
        b = _np.moveaxis(cast_obj(x.a, x.dt, sum_dtype(x.dt)), axis, -1).copy()
        for ix in _np.ndindex(*b.shape[:-1]):
            for j in range(1, b.shape[-1]):
                b[ix + (j,)] = fn(b[ix + (j - 1,)], b[ix + (j,)])
        return SArr(_np.moveaxis(b, -1, axis), sum_dtype(x.dt))

    def outer(self, x, y, **k):
        x, y = to_arr(x), to_arr(y)
        xs = SArr(x.a.reshape(x.a.shape + (1,) * y.a.ndim), x.dt)
        return binop(self.name, xs, y, **k)

    def at(self, x, idx, *b):
        fail("ufunc.at")


UFUNCS = {n: UF(n) for n in TABLE if isinstance(getattr(_np, n, None), _np.ufunc)}


def _install_ops():
    ops = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide", "floordiv": "floor_divide",
           "mod": "remainder", "pow": "power", "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor"}

    def mk(name):
        def f(self, o):
            if not _ok_operand(o):
                return NotImplemented
            return binop(name, self, o)

        def r(self, o):
            if not _ok_operand(o):
                return NotImplemented
            return binop(name, o, self)

        def i(self, o):
            res = binop(name, self, o)
            rdt = res.dt if isinstance(res, SArr) else _rdt(name, (self, o))
            if not _np.can_cast(rdt, self.dt, "same_kind"):
                raise TypeError("Cannot cast ufunc %r output from %r to %r with casting rule 'same_kind'" % (name, rdt, self.dt))
            rs = res.shape if isinstance(res, (SArr,)) else ()
            if rs != self.a.shape:
                raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (self.a.shape, rs))
            self.a[...] = cast_obj(res.a, res.dt, self.dt) if isinstance(res, SArr) else box(elem(res, self.dt))
            return self
        return f, r, i
    for py, nm in ops.items():
        f, r, i = mk(nm)
        setattr(SArr, "__%s__" % py, f)
        setattr(SArr, "__r%s__" % py, r)
        setattr(SArr, "__i%s__" % py, i)
    for py, nm in {"lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal", "ne": "not_equal"}.items():
        def c(self, o, nm=nm):
            if isinstance(o, str) or o is None:
                if nm == "equal":
                    return SArr.full(self.a.shape, False, DT_B)
                if nm == "not_equal":
                    return SArr.full(self.a.shape, True, DT_B)
                return NotImplemented
            if not _ok_operand(o):
                return NotImplemented
            return binop(nm, self, o)
        setattr(SArr, "__%s__" % py, c)
    SArr.__matmul__ = lambda self, o: matmul(self, o) if _ok_operand(o) else NotImplemented
    SArr.__rmatmul__ = lambda self, o: matmul(o, self) if _ok_operand(o) else NotImplemented

    def imatmul(self, o):
        self.a[...] = cast_obj(matmul(self, o).a, None, self.dt)
        return self
    SArr.__imatmul__ = imatmul
    SArr.__neg__ = lambda self: binop("negative", self)
    SArr.__pos__ = lambda self: self.copy()
    SArr.__abs__ = lambda self: binop("absolute", self)
    SArr.__invert__ = lambda self: binop("invert", self)
    SArr.__divmod__ = lambda self, o: (self // o, self % o)
    SArr.__round__ = lambda self, n=0: self.round(n)


def _ok_operand(o):
    return isinstance(o, (SArr, list, tuple, range, _np.ndarray) + SCALARS)


_install_ops()


# ---------------------------------------------------------------- linear algebra
def _mat(x):
    x = to_arr(x)
    if x.a.ndim != 2 or x.a.shape[0] != x.a.shape[1]:
        raise _np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return cast_obj(x.a, x.dt, DT_F)


def _is_sym(A):
    n = len(A)
    return all(A[i, j].p == A[j, i].p for i in range(n) for j in range(i))


def det_obj(A):
    n = len(A)
    if n == 0:
        return ONE
    if n == 1:
        return A[0, 0]
    if n == 2:
        return ssub(smul(A[0, 0], A[1, 1]), smul(A[0, 1], A[1, 0]))
    if n > 5:
        fail("determinant of a large symbolic matrix")
    r = ZERO
    for j in range(n):
        m = _np.delete(_np.delete(A, 0, 0), j, 1)
        t = smul(A[0, j], det_obj(m))
        r = sadd(r, t) if j % 2 == 0 else ssub(r, t)
    return r


def inverse_obj(A):
    """inverse of a matrix of SReal.  Up to 2x2: adjugate/determinant.  Larger symbolic matrices: fresh
    entries constrained by A*B = B*A = I (the matrix is assumed invertible)."""
    n = len(A)
    out = _np.empty((n, n), dtype=object)
    if all(e.is_const() for e in A.ravel()):
        M = [[Fraction(A[i, j].const()) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            piv = next((r for r in range(c, n) if M[r][c] != 0), None)
            if piv is None:
                raise _np.linalg.LinAlgError("Singular matrix")
            M[c], M[piv] = M[piv], M[c]
            d = M[c][c]
            M[c] = [v / d for v in M[c]]
            for r in range(n):
                if r != c and M[r][c] != 0:
                    f = M[r][c]
                    M[r] = [v - f * w for v, w in zip(M[r], M[c])]
        for i in range(n):
            for j in range(n):
                out[i, j] = const(M[i][n + j])
        return out
    # block structure: isolated 1x1 blocks are common while a history fills up
    iso = [i for i in range(n) if all(not A[i, j].p and not A[j, i].p for j in range(n) if j != i)]
    if iso:
        rest = [i for i in range(n) if i not in iso]
        for i in range(n):
            for j in range(n):
                out[i, j] = ZERO
        for i in iso:
            out[i, i] = sdiv(ONE, A[i, i])
        if rest:
            sub = inverse_obj(A[_np.ix_(rest, rest)])
            for x, i in enumerate(rest):
                for y, j in enumerate(rest):
                    out[i, j] = sub[x, y]
        return out
    if n <= 2:
        d = det_obj(A)
        out[0, 0] = sdiv(A[1, 1], d)
        out[1, 1] = sdiv(A[0, 0], d)
        out[0, 1] = sdiv(-A[0, 1], d)
        out[1, 0] = sdiv(-A[1, 0], d)
        return out
    key = tuple(e.key() for e in A.ravel())
    sym = _is_sym(A)
    ps = tuple(e.p for e in A.ravel())
    Ctx.engine.note_inverse(A)
    for i in range(n):
        for j in range(n):
            ii, jj = (min(i, j), max(i, j)) if sym else (i, j)
            at = atom("inv", (key, ii, jj), (n, ps, ii, jj, sym))
            out[i, j] = SReal({((at.aid, 1),): 1}, "f", "inv", (A, ii, jj, at))
    return out


def l_inv(x):
    return SArr(inverse_obj(_mat(x)), DT_F)


def l_solve(A, b):
    inv = l_inv(A)
    b = to_arr(b)
    return matmul(inv, b)


def l_det(x):
    return det_obj(_mat(x))


def l_norm(x, ord=None, axis=None, keepdims=False):
    x = to_arr(x)
    if isinstance(ord, SReal) and ord.is_const():
        ord = int(ord.const())
    if ord is None or (ord == 2 and (x.a.ndim == 1 or axis is not None)) or ord == "fro":
        sq = binop("multiply", x, x)
        r = reduce_sum(sq, axis, keepdims, DT_F)
        return binop("sqrt", r)
    if ord == 1 and (x.a.ndim == 1 or isinstance(axis, int)):
        return abs(x).sum(axis=axis, keepdims=keepdims)
    if ord == _np.inf and (x.a.ndim == 1 or isinstance(axis, int)):
        return abs(x).max(axis=axis, keepdims=keepdims)
    fail("norm order")


def eig_atoms(x):
    """contract of numpy.linalg.eig: A v_i = l_i v_i with |v_i| = 1 (real, see DESIGN).
    One set of atoms stands for all matrices that differ in a positive rational factor and in the order of the
    coordinates; eigenvectors are therefore determined only up to sign and order, as the eigenproblem determines them"""
    A = _mat(x)
    n = len(A)
    c = None
    for e in sorted((A[i, j] for i in range(n) for j in range(n) if A[i, j].p), key=lambda e: _okey(terms.pscale(e.p, Fraction(1) / abs(e.p[terms.lead(e.p)])))):
        c = abs(Fraction(e.p[terms.lead(e.p)]))
        break
    c = c or Fraction(1)
    P = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            P[i, j] = terms.pscale(A[i, j].p, 1 / c)
    if n <= 4:
        ks = [[_okey(P[i, j]) for j in range(n)] for i in range(n)]
        perm = min(itertools.permutations(range(n)), key=lambda p: [ks[i][j] for i in p for j in p])
    else:
        perm = tuple(range(n))
    ps = tuple(P[i, j] for i in perm for j in perm)
    key = tuple(terms.pkey(p) for p in ps)
    sym = _is_sym(A)
    where = {i: k for k, i in enumerate(perm)}
    vals = _np.empty(n, dtype=object)
    vecs = _np.empty((n, n), dtype=object)
    for i in range(n):
        at = atom("eig", (key, "val", i), (n, ps, "val", i, sym))
        vals[i] = const(terms.nc(c), "f") * SReal({((at.aid, 1),): 1}, "f", "eig", (A, "val", i, 0, at))
        for j in range(n):
            at = atom("eig", (key, "vec", where[j], i), (n, ps, "vec", where[j], i, sym))
            vecs[j, i] = SReal({((at.aid, 1),): 1}, "f", "eig", (A, "vec", j, i, at))
    return SArr(vals, DT_F), SArr(vecs, DT_F)


def _okey(p):
    return sorted((m, Fraction(c)) for m, c in p.items())


def l_eigh(x, UPLO="L"):
    """ascending order of eigenvalues"""
    vals, vecs = eig_atoms(x)
    order = [int(e.const()) for e in argsort(vals).a]
    return SArr(vals.a[order].copy(), DT_F), SArr(vecs.a[:, order].copy(), DT_F)
