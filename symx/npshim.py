"""The module the code under test sees as `numpy` during symbolic execution."""
import functools
import types
import warnings
from fractions import Fraction

import numpy as _np

from . import arr, terms
from .arr import (SArr, UFUNCS, to_arr, binop, SCALARS, DT_F, DT_I, DT_B, cast_obj, finish, dot, matmul, box, elem,
                  conv_index, norm_axis, where_fn, is_symbolic_scalar, BOOLS, scalar_dt)
from .terms import (SReal, SBool, Unsupported, fail, lift, const, norm_dtype, Ctx, scmp, sand, snot, ZERO, ONE,
                    cast_scalar, NUM, smul, sadd, sdiv, ssub, site, smin, smax, sabs)


def ix(n):
    """size argument -> int"""
    if isinstance(n, (SReal, SArr)):
        return n.__index__()
    return n


def shape_of(s):
    if isinstance(s, SArr):
        s = list(s.a.ravel())
    if isinstance(s, (tuple, list, range)):
        return tuple(_int(x) for x in s)
    return (_int(s),)


def _int(x):
    if isinstance(x, (SReal, SArr)):
        return x.__index__()
    if isinstance(x, (float, _np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(x)


# ------------------------------------------------------------------ dtype stand-ins
class _DTMeta(type):
    def __instancecheck__(cls, x):
        dt = cls._symx_dtype
        if isinstance(x, SReal):
            return dt.kind == x.kind
        if isinstance(x, SBool):
            return dt.kind == "b"
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_real", c), cls._real)

    def __call__(cls, x=0, *a):
        if isinstance(x, SCALARS):
            return elem(x, cls._symx_dtype) if cls._symx_dtype.kind != "b" else cast_scalar(x, DT_B)
        if isinstance(x, str):
            return elem(float(x), cls._symx_dtype)
        r = SArr.of(x, dtype=cls._symx_dtype)
        return r[()] if r.ndim == 0 else r

    def __eq__(cls, o):
        return cls is o or o is cls._real or (isinstance(o, _np.dtype) and o == cls._symx_dtype)

    def __hash__(cls):
        return hash(cls._real)


def _mk_dtype(name):
    real = getattr(_np, name)
    return _DTMeta(name, (), {"_symx_dtype": _np.dtype(real), "_real": real, "__doc__": real.__doc__})


class _Abs(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SReal):
            return x.kind in cls._kinds
        if isinstance(x, SBool):
            return "b" in cls._kinds
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_real", c), cls._real)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, _np.ndarray))


class ndarray(metaclass=_NdMeta):
    def __new__(cls, shape, dtype=float, *a, **k):
        return empty(shape, dtype)


# ------------------------------------------------------------------ creation
def zeros(shape, dtype=float, order="C", **k):
    return SArr.full(shape_of(shape) if not isinstance(shape, (int, _np.integer)) else int(shape), 0, norm_dtype(dtype) or DT_F)


def ones(shape, dtype=float, order="C", **k):
    return SArr.full(shape_of(shape), 1, norm_dtype(dtype) or DT_F)


def empty(shape, dtype=float, order="C", **k):
    """uninitialised memory: every element an unconstrained value"""
    dt = norm_dtype(dtype) or DT_F
    a = _np.empty(shape_of(shape), dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = elem(Ctx.engine.fresh("uninit", "i" if dt.kind in "iu" else "f"), dt)
    if a.ndim == 0:
        a[()] = f[0]
    return SArr(a, dt)


def full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        v = to_arr(fill_value)
        dt = v.dt
    else:
        dt = norm_dtype(dtype)
    r = zeros(shape, dt)
    r[...] = fill_value
    return r


def _like(f):
    def g(a, *args, dtype=None, shape=None, order="K", subok=True, **k):
        a = to_arr(a)
        return f(a.shape if shape is None else shape, *args, dtype=dtype or a.dt)
    return g


def eye(N, M=None, k=0, dtype=float, **kw):
    N = _int(N)
    M = N if M is None else _int(M)
    r = zeros((N, M), dtype)
    for i in range(N):
        if 0 <= i + k < M:
            r[i, i + k] = 1
    return r


def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype or float)


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if isinstance(x, types.GeneratorType):
        fail("array of a generator")
    if isinstance(x, SStrLike):
        fail("array of a symbolic string")
    r = SArr.of(x, dtype, copy=True if copy is None or copy else False) if copy else asarray(x, dtype)
    if ndmin and isinstance(r, SArr):
        while r.ndim < ndmin:
            r = SArr(r.a[None], r.dt)
    return r


class SStrLike:
    pass


def asarray(x, dtype=None, order=None, **k):
    if k.get("copy"):
        return array(x, dtype)
    if isinstance(x, SArr):
        dt = norm_dtype(dtype)
        return x if dt is None or dt == x.dt else x.astype(dt)
    return SArr.of(x, dtype)


def copy(x, order="K", subok=False):
    return SArr.of(x)


def fromiter(it, dtype, count=-1, **k):
    return SArr.of(list(it), dtype)


def fromfunction(f, shape, dtype=float, **k):
    idx = [SArr.of(g, dtype=dtype) for g in _np.indices(tuple(int(s) for s in shape))]
    return f(*idx, **k)


def arange(*args, dtype=None, **k):
    xs = []
    for x in args:
        if isinstance(x, SReal):
            x = x.__index__() if x.kind == "i" else _num(x)
        xs.append(x)
    r = _np.arange(*xs, **({} if dtype is None else {"dtype": norm_dtype(dtype)}))
    if r.dtype.kind == "f":
        st, stp = (0, 1)
        if len(xs) >= 2:
            st = xs[0]
        if len(xs) == 3:
            stp = xs[2]
        st, stp = lift(st), lift(stp)
        return SArr.of([sadd(st, smul(stp, const(i))) for i in range(len(r))], DT_F) if len(r) else SArr.of(r)
    return SArr.of(r)


def _num(x):
    if not x.is_const():
        fail("symbolic size")
    c = x.const()
    return c if isinstance(c, int) else float(c)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = _int(num)
    start, stop = lift(start), lift(stop)
    div = num - 1 if endpoint else num
    step = sdiv(ssub(stop, start), const(div)) if div > 0 else ZERO
    r = SArr.of([sadd(start, smul(const(i), step)) for i in range(num)], DT_F)
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


# ------------------------------------------------------------------ reductions as functions
def _method(name):
    def f(a, *args, **kw):
        if name in ("sum", "max", "min", "prod", "any", "all") and isinstance(a, types.GeneratorType):
            fail("reduction of a generator")
        a = to_arr(a)
        if not isinstance(a, SArr):
            return getattr(_np, name)(a, *args, **kw)
        return getattr(a, name)(*args, **kw)
    f.__name__ = name
    return f


def average(a, axis=None, weights=None, returned=False, **k):
    a = to_arr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = to_arr(weights)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(*sh)
    return (a * w).sum(axis=axis) / (w * ones(a.shape)).sum(axis=axis)


def median(a, axis=None, **k):
    s = arr.sort(a, axis)
    s = SArr(_np.moveaxis(s.a, axis if axis is not None else -1, 0), s.dt)
    n = len(s.a)
    return s[n // 2] * 1.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if fweights is not None or aweights is not None or y is not None:
        fail("cov with weights")
    X = to_arr(m)
    if X.ndim < 2:
        X = SArr(X.a.reshape(1, -1), X.dt)
    if not rowvar and X.shape[0] != 1:
        X = X.T
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    d = X - X.mean(axis=1, keepdims=True)
    c = dot(d, d.T) / (n - ddof)
    return c[0, 0] if c.shape == (1, 1) else c


def cumsum(a, axis=None, **k):
    return to_arr(a).cumsum(axis=axis)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    n = _int(n)
    if n < 0:
        raise ValueError("order must be non-negative but got %r" % n)
    a = to_arr(a)
    axis = norm_axis(axis)
    parts = []
    for p in (prepend, None, append):
        pass
    if prepend is not None or append is not None:
        def ext(v):
            v = to_arr(v)
            if v.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                v = SArr(_np.broadcast_to(v.a, sh), v.dt)
            return v
        parts = ([ext(prepend)] if prepend is not None else []) + [a] + ([ext(append)] if append is not None else [])
        a = concatenate(parts, axis=axis)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = binop("subtract" if a.dt.kind != "b" else "not_equal", a[tuple(sl1)], a[tuple(sl2)])
    return a


def ediff1d(a, **k):
    return diff(to_arr(a).ravel())


def gradient(*a, **k):
    fail("gradient")


def concatenate(xs, axis=0, out=None, dtype=None, **k):
    if isinstance(xs, SArr):
        xs = [xs[i] for i in range(len(xs))]
    xs = [to_arr(x) for x in xs]
    if not all(isinstance(x, SArr) for x in xs):
        return _np.concatenate([x.a if isinstance(x, SArr) else x for x in xs], axis=axis)
    dt = norm_dtype(dtype) or functools.reduce(_np.promote_types, [x.dt for x in xs])
    return arr.store_out(SArr(_np.concatenate([cast_obj(x.a, x.dt, dt) for x in xs], axis=axis), dt), out)


def _stack(name):
    real = getattr(_np, name)

    def f(xs, *a, **k):
        k.pop("casting", None)
        xs = [to_arr(x) for x in xs]
        dt = functools.reduce(_np.promote_types, [x.dt for x in xs])
        return SArr(real([cast_obj(x.a, x.dt, dt) for x in xs], *a, **k), dt)
    f.__name__ = name
    return f


def insert(a, obj, values, axis=None):
    a, v = to_arr(a), to_arr(values)
    v = SArr(cast_obj(v.a, v.dt, a.dt), a.dt)
    return SArr(_np.insert(a.a, conv_index(obj), v.a, axis=axis), a.dt)


def append(a, values, axis=None):
    a, v = to_arr(a), to_arr(values)
    if axis is None:
        return concatenate([a.ravel(), v.ravel()])
    return concatenate([a, v], axis=axis)


def delete(a, obj, axis=None):
    a = to_arr(a)
    return SArr(_np.delete(a.a, conv_index(obj), axis=axis), a.dt)


def take(a, idx, axis=None, **k):
    return to_arr(a).take(idx, axis=axis)


def put(a, idx, v, **k):
    a.flat[idx] = v


def place(a, mask, v):
    fail("place")


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        s = to_arr(src)
        if not isinstance(src, SCALARS) and not _np.can_cast(s.dt, dst.dt, casting):
            raise TypeError("Cannot cast array data from %r to %r according to the rule %r" % (s.dt, dst.dt, casting))
        dst[...] = src
    else:
        dst[...] = where_fn(where, src, dst)


def putmask(a, mask, v):
    a[...] = where_fn(mask, v, a)


def fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


def inner(a, b):
    if arr._weak(a) or arr._weak(b):
        return binop("multiply", a, b)
    a, b = to_arr(a), to_arr(b)
    dt = arr.prod_dt(a, b)
    return finish(_np.inner(cast_obj(a.a, a.dt, dt), cast_obj(b.a, b.dt, dt)), dt)


def outer(a, b, out=None):
    a, b = to_arr(a).ravel(), to_arr(b).ravel()
    return arr.store_out(binop("multiply", SArr(a.a[:, None], a.dt), SArr(b.a[None, :], b.dt)), out)


def vdot(a, b):
    return dot(to_arr(a).ravel(), to_arr(b).ravel())


def multi_dot(xs, **k):
    return functools.reduce(dot, xs)


def tensordot(a, b, axes=2):
    a, b = to_arr(a), to_arr(b)
    dt = arr.prod_dt(a, b)
    return finish(_np.asarray(_np.tensordot(a.a, b.a, axes=axes), dtype=object), dt)


def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        fail("einsum with lists")
    ops = [to_arr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "..." in spec:
        fail("einsum with ellipsis")
    if "->" in spec:
        ins, outs = spec.split("->")
    else:
        ins = spec
        cnt = {}
        for c in ins.replace(",", ""):
            cnt[c] = cnt.get(c, 0) + 1
        outs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("more operands provided to einstein sum function than specified in the subscripts string")
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
        for c, n in zip(s, o.shape):
            if size.setdefault(c, n) != n:
                if size[c] != 1 and n != 1:
                    raise ValueError("operands could not be broadcast together in einsum")
                size[c] = max(size[c], n)
    dt = functools.reduce(_np.promote_types, [o.dt for o in ops])
    inner_ = [c for c in size if c not in outs]
    r = _np.empty(tuple(size[c] for c in outs), dtype=object)
    for oi in _np.ndindex(*r.shape):
        env = dict(zip(outs, oi))
        acc = None
        for ii in _np.ndindex(*[size[c] for c in inner_]):
            env.update(zip(inner_, ii))
            t = None
            for s, o in zip(ins, ops):
                v = lift(o.a[tuple(env[c] if o.a.shape[j] > 1 else 0 for j, c in enumerate(s))])
                t = v if t is None else smul(t, v)
            acc = t if acc is None else sadd(acc, t)
        r[oi] = acc if acc is not None else ZERO
    return finish(r, dt)


def kron(a, b):
    a, b = to_arr(a), to_arr(b)
    return SArr(_np.kron(a.a, b.a), arr.prod_dt(a, b))


def convolve(a, v, mode="full"):
    a, v = to_arr(a), to_arr(v)
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    outv = []
    for i in range(n + m - 1):
        acc = ZERO
        for j in range(m):
            if 0 <= i - j < n:
                acc = sadd(acc, smul(lift(a.a[i - j]), lift(v.a[j])))
        outv.append(acc)
    if mode == "valid":
        outv = outv[m - 1:n]
    elif mode == "same":
        s = (m - 1) // 2
        outv = outv[s:s + n]
    return SArr(arr._obj((len(outv),), outv), arr.prod_dt(a, v))


def correlate(a, v, mode="valid"):
    v = to_arr(v)
    a = to_arr(a)
    if len(v) > len(a):
        fail("correlate with a longer second series")
    return convolve(a, v[::-1], mode)


def trace(a, *r, **k):
    return to_arr(a).trace(*r, **k)


def diag(v, k=0):
    v = to_arr(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = zeros((n, n), v.dt)
        for i in range(len(v)):
            r[(i, i + k) if k >= 0 else (i - k, i)] = v.a[i]
        return r
    return SArr(_np.diag(v.a, k).copy(), v.dt)


def tri_(f):
    def g(a, k=0):
        a = to_arr(a)
        r = SArr(f(a.a, k), a.dt)
        for i in _np.ndindex(*r.a.shape):
            if not isinstance(r.a[i], (SReal, SBool)):
                r.a[i] = elem(0, a.dt)
        return r
    return g


def sort(a, axis=-1, kind=None, order=None, **k):
    return arr.sort(a, axis)


def argsort(a, axis=-1, kind=None, order=None, **k):
    return arr.argsort(a, axis)


def argmax(a, axis=None, **k):
    return to_arr(a).argmax(axis)


def argmin(a, axis=None, **k):
    return to_arr(a).argmin(axis)


def partition(a, kth, axis=-1, **k):
    return arr.sort(a, axis)


def argpartition(a, kth, axis=-1, **k):
    return arr.argsort(a, axis)


def _rank(a, q, axis):
    fail("percentile")


def nonzero(a):
    return to_arr(a).nonzero()


def flatnonzero(a):
    return to_arr(a).ravel().nonzero()[0]


def argwhere(a):
    return SArr.of(_np.argwhere(arr.concrete_bools(to_arr(a))))


def count_nonzero(a, axis=None, **k):
    a = to_arr(a)
    return binop("not_equal", a, 0).sum(axis=axis) if a.dt.kind != "b" else a.sum(axis=axis)


def clip(a, a_min=None, a_max=None, out=None, **k):
    if isinstance(a, SCALARS):
        r = lift(a)
        lo = k.get("min", a_min)
        hi = k.get("max", a_max)
        if lo is not None:
            r = binop("maximum", r, lo)
        if hi is not None:
            r = binop("minimum", r, hi)
        return r
    return to_arr(a).clip(k.get("min", a_min), k.get("max", a_max), out)


def round_(a, decimals=0, out=None):
    if isinstance(a, SCALARS):
        return round(lift(a), decimals)
    return to_arr(a).round(decimals)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    raw = a
    a = to_arr(a)
    if not isinstance(a, SArr):
        return _np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    if axis is not None:
        fail("unique along an axis")
    flat = list(a.a.ravel())
    order = [int(i.const()) for i in arr.argsort(SArr(a.a.ravel(), a.dt)).a]
    vals, idx, inv, cnt = [], [], [0] * len(flat), []
    for i in order:
        if vals:
            r = scmp("eq", lift(flat[i]), lift(vals[-1]))
            if r if isinstance(r, bool) else bool(r):
                inv[i] = len(vals) - 1
                cnt[-1] += 1
                continue
        vals.append(flat[i])
        idx.append(i)
        cnt.append(1)
        inv[i] = len(vals) - 1
    out = [SArr(arr._obj((len(vals),), vals), a.dt)]
    if return_index:
        out.append(SArr.of(idx, DT_I))
    if return_inverse:
        out.append(SArr.of(inv, DT_I).reshape(a.shape))
    if return_counts:
        out.append(SArr.of(cnt, DT_I))
    return out[0] if len(out) == 1 else tuple(out)


def bincount(x, weights=None, minlength=0):
    x = to_arr(x)
    idx = [int(e.__index__()) if not isinstance(e, int) else e for e in x.a]
    n = max([minlength] + [i + 1 for i in idx])
    if weights is None:
        return SArr.of(_np.bincount(_np.array(idx, dtype=int), minlength=minlength))
    w = to_arr(weights)
    out = [ZERO] * n
    for i, v in zip(idx, w.a):
        out[i] = sadd(out[i], lift(v))
    return SArr.of(out, DT_F)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return binop("less_equal", binop("absolute", binop("subtract", a, b)),
                 binop("add", atol, binop("multiply", rtol, binop("absolute", b))))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return r.all() if isinstance(r, SArr) else r


def array_equal(a, b, equal_nan=False):
    a, b = to_arr(a), to_arr(b)
    if a.shape != b.shape:
        return False
    r = binop("equal", a, b)
    return r.all() if isinstance(r, SArr) else r


def array_equiv(a, b):
    fail("array_equiv")


def polyfit(*a, **k):
    fail("polyfit")


def isscalar(x):
    return isinstance(x, SCALARS) or isinstance(x, (str, SStrLike)) or _np.isscalar(x)


def iscomplexobj(x):
    return False


def isrealobj(x):
    return True


def shape(x):
    return to_arr(x).shape


def ndim(x):
    return to_arr(x).ndim


def size(x, axis=None):
    a = to_arr(x)
    return a.size if axis is None else a.shape[axis]


def nan_to_num(x, copy=True, **k):
    if isinstance(x, SCALARS):
        return lift(x)
    a = to_arr(x)
    return a.copy() if copy else a


def vectorize(f, *a, **k):
    def g(*xs):
        r = _np.frompyfunc(f, len(xs), 1)(*[to_arr(x).a for x in xs])
        return SArr.of(r.tolist()) if isinstance(r, _np.ndarray) else r
    return g


def apply_along_axis(f, axis, a, *args, **k):
    a = to_arr(a)
    b = _np.moveaxis(a.a, axis, -1)
    res = None
    for i in _np.ndindex(*b.shape[:-1]):
        v = f(SArr(b[i], a.dt), *args, **k)
        if isinstance(v, (list, tuple)):
            v = SArr.of(v)
        if res is None:
            res = {}
        res[i] = v
    first = next(iter(res.values()))
    if isinstance(first, SArr):
        o = _np.empty(b.shape[:-1] + first.shape, dtype=object)
        for i, v in res.items():
            o[i] = v.a
        nd = first.ndim
        if nd == 1:
            o = _np.moveaxis(o, -1, axis)
        return SArr(o, first.dt)
    return SArr.of(_nest(res, b.shape[:-1]))


def _nest(res, sh):
    o = _np.empty(sh, dtype=object)
    for i, v in res.items():
        o[i] = v
    return o.tolist()


def sliding_window_view(x, window_shape, axis=None, **k):
    x = to_arr(x)
    if isinstance(window_shape, (SReal, SArr)):
        window_shape = window_shape.__index__()
    return SArr(_np.lib.stride_tricks.sliding_window_view(x.a, window_shape, axis=axis), x.dt)


def as_strided(x, shape=None, strides=None, **k):
    x = to_arr(x)
    if strides is not None:
        strides = tuple(s * x.a.itemsize // x.dt.itemsize for s in strides)
    return SArr(_np.lib.stride_tricks.as_strided(x.a, shape, strides), x.dt)


# ------------------------------------------------------------------ generic fallback
_FALLBACK_OK = set("""reshape ravel transpose swapaxes moveaxis rollaxis squeeze expand_dims broadcast_to flip fliplr
flipud rot90 roll tile repeat atleast_1d atleast_2d atleast_3d split array_split vsplit hsplit dsplit
meshgrid resize trim_zeros diagonal compress choose select extract broadcast_arrays permute_dims matrix_transpose""".split())


def _wrap_struct(r, dt):
    if isinstance(r, _np.ndarray):
        if r.dtype != object:
            return SArr.of(r) if r.dtype.kind in "fiub" else r
        return SArr(r, dt)
    if isinstance(r, tuple):
        return tuple(_wrap_struct(e, dt) for e in r)
    if isinstance(r, list):
        return [_wrap_struct(e, dt) for e in r]
    return r


def _fallback(name):
    real = getattr(_np, name)

    def f(*args, **kw):
        dts = []

        def conv(x, top):
            if isinstance(x, SArr):
                dts.append(x.dt)
                return x.a
            if isinstance(x, (list, tuple)) and any(isinstance(e, (SArr, SReal, list)) for e in x):
                if top == 0 and not any(isinstance(e, SArr) for e in x):
                    a = to_arr(x)
                    dts.append(a.dt)
                    return a.a
                return type(x)(conv(e, 1) for e in x)
            if isinstance(x, SReal):
                return x.__index__() if x.kind == "i" and x.is_const() else box(x)
            return x
        a = [conv(x, 0 if i == 0 else 1) for i, x in enumerate(args)]
        k = {n: conv(x, 1) for n, x in kw.items()}
        r = real(*a, **k)
        if not dts:
            return _wrap_struct(r, None)
        return _wrap_struct(r, functools.reduce(_np.promote_types, dts))
    f.__name__ = name
    return f


# ------------------------------------------------------------------ r_, c_
class _RClass:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        xs = []
        for k in key:
            if isinstance(k, str):
                fail("r_ directive")
            if isinstance(k, slice):
                xs.append(arange(k.start or 0, k.stop, k.step if k.step is not None else 1))
            else:
                a = to_arr(k)
                xs.append(SArr(a.a.reshape(1), a.dt) if a.ndim == 0 else a)
        return concatenate(xs)


class _CClass:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        xs = []
        for k in key:
            a = to_arr(k)
            xs.append(SArr(a.a.reshape(-1, 1), a.dt) if a.ndim <= 1 else a)
        return concatenate(xs, axis=1)


# ------------------------------------------------------------------ random stub
class RandomStub:
    """every draw is an arbitrary value; the parameters of every draw are recorded in the engine"""

    def _draw(self, what, size, *params):
        return Ctx.engine.draw(what, size, params)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw("normal", size, loc, scale)

    def standard_normal(self, size=None, *a, **k):
        return self._draw("normal", size, 0.0, 1.0)

    def randn(self, *sh):
        return self._draw("normal", sh if sh else None, 0.0, 1.0)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw("uniform", size, low, high)

    def random(self, size=None):
        return self._draw("uniform", size, 0.0, 1.0)

    random_sample = ranf = sample = random

    def rand(self, *sh):
        return self._draw("uniform", sh if sh else None, 0.0, 1.0)

    def seed(self, *a):
        Ctx.engine.draw_note(("seed",) + a)

    def shuffle(self, x):
        n = len(x)
        p = Ctx.engine.permutation(n)
        if isinstance(x, SArr):
            x.a[...] = x.a[p].copy()
        elif isinstance(x, list):
            x[:] = [x[i] for i in p]
        else:
            fail("shuffle of %r" % type(x))

    def permutation(self, x):
        if isinstance(x, (int, SReal, _np.integer)):
            return SArr.of(_np.array(Ctx.engine.permutation(_int(x)), dtype=int))
        a = to_arr(x)
        return SArr(a.a[Ctx.engine.permutation(len(a))], a.dt)

    def default_rng(self, *a):
        Ctx.engine.draw_note(("default_rng",) + a)
        return _Gen()

    def RandomState(self, *a):
        Ctx.engine.draw_note(("RandomState",) + a)
        return _Gen()

    def Generator(self, *a):
        return _Gen()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        fail("numpy.random.%s" % n)


class _Gen(RandomStub):
    """a private generator: its draws are not those of the global generator"""

    def _draw(self, what, size, *params):
        return Ctx.engine.draw("private-" + what, size, params)

    def integers(self, *a, **k):
        fail("Generator.integers")


def _seterr(all=None, divide=None, over=None, under=None, invalid=None):
    e = Ctx.engine
    old = dict(e.np_errors)
    new = dict(divide=divide, over=over, under=under, invalid=invalid)
    e.np_errors = {k: new[k] or all or old[k] for k in old}
    return old


class _Err:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class Mod(types.ModuleType):
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(table)

    def __getattr__(self, n):
        real = self.__dict__["_real"]
        if n.startswith("__"):
            raise AttributeError(n)
        if not hasattr(real, n):
            raise AttributeError("module %r has no attribute %r" % (self.__name__, n))
        v = getattr(real, n)
        if isinstance(v, type) and issubclass(v, (Exception, Warning)):
            return v
        if n in _FALLBACK_OK and real is _np:
            v = _fallback(n)
            self.__dict__[n] = v
            return v
        if isinstance(v, (float, int, str)) or v is None:
            return v
        fail("%s.%s is not modelled" % (self.__name__, n))


def _unmodelled(name):
    def f(*a, **k):
        fail("%s is not modelled" % name)
    return f


def isin(a, vals, **k):
    a = to_arr(a)
    vs = to_arr(vals).a.ravel() if not isinstance(vals, (set, frozenset)) else list(vals)
    return arr.elementwise(lambda e: terms.sor(*[arr._eq(e, v) for v in vs]) if len(vs) else False, [a], DT_B)


def build():
    linalg = Mod("numpy.linalg", _np.linalg, {
        "inv": arr.l_inv, "solve": arr.l_solve, "det": arr.l_det, "norm": arr.l_norm, "eig": l_eig, "eigh": arr.l_eigh,
        "eigvals": lambda x: l_eig(x)[0], "eigvalsh": lambda x, *a: arr.l_eigh(x)[0], "pinv": l_pinv,
        "LinAlgError": _np.linalg.LinAlgError, "multi_dot": multi_dot, "matrix_power": matrix_power, "lstsq": l_lstsq,
        "outer": outer, "matmul": matmul, "vecdot": lambda a, b, axis=-1: (to_arr(a) * to_arr(b)).sum(axis=axis),
        "vector_norm": lambda x, axis=None, keepdims=False, ord=2: arr.l_norm(to_arr(x) if axis is not None else to_arr(x).ravel(), ord, axis, keepdims),
        "trace": trace, "diagonal": lambda x, **k: to_arr(x).diagonal(**k),
    })
    g = globals()
    t = {}
    for n in ("zeros ones empty full eye identity array asarray copy fromiter fromfunction arange linspace average median "
              "cov cumsum diff ediff1d gradient concatenate insert append delete take put place copyto putmask "
              "fill_diagonal inner outer vdot tensordot einsum kron convolve correlate trace diag sort argsort argmax "
              "argmin partition argpartition nonzero flatnonzero argwhere count_nonzero clip unique bincount isclose "
              "allclose array_equal array_equiv polyfit isscalar iscomplexobj isrealobj shape ndim size nan_to_num "
              "vectorize apply_along_axis ndarray isin dot matmul").split():
        t[n] = g[n]
    t.update(UFUNCS)
    for n in "sum mean std var max min prod any all ptp cumprod".split():
        t[n] = _method(n)
    t.update({
        "real": lambda x: x.real if isinstance(x, (SArr, SReal)) else asarray(x), "real_if_close": lambda a, tol=100: asarray(a),
        "imag": lambda x: x.imag if isinstance(x, (SArr, SReal)) else asarray(x) * 0,
        "amax": t["max"], "amin": t["min"], "nansum": t["sum"], "nanmean": t["mean"], "nanstd": t["std"], "nanvar": t["var"],
        "nanmax": t["max"], "nanmin": t["min"], "product": t["prod"], "around": round_, "round": round_, "round_": round_,
        "asanyarray": asarray, "ascontiguousarray": asarray, "asfortranarray": asarray, "asfarray": lambda x, dtype=float: asarray(x, dtype),
        "require": asarray, "concat": concatenate, "msort": sort, "acos": t.get("arccos"),
        "asarray_chkfinite": asarray,
        "zeros_like": _like(zeros), "ones_like": _like(ones), "empty_like": _like(empty), "full_like": _like(full),
        "hstack": _stack("hstack"), "vstack": _stack("vstack"), "stack": _stack("stack"), "column_stack": _stack("column_stack"),
        "dstack": _stack("dstack"), "where": where_fn, "tril": tri_(_np.tril), "triu": tri_(_np.triu),
        "triu_indices": _np.triu_indices, "tril_indices": _np.tril_indices, "diag_indices": _np.diag_indices, "ndindex": _np.ndindex,
        "indices": lambda *a, **k: SArr.of(_np.indices(*a, **k)), "ndenumerate": ndenumerate, "nditer": _unmodelled("nditer"),
        "ix_": lambda *a: _np.ix_(*[conv_index(x) if not isinstance(x, (list, range)) else list(x) for x in a]),
        "r_": _RClass(), "c_": _CClass(), "s_": _np.s_, "index_exp": _np.index_exp, "newaxis": None,
        "pi": _np.pi, "e": _np.e, "inf": float("inf"), "nan": float("nan"), "PINF": float("inf"),
        "errstate": _Err, "seterr": _seterr, "geterr": lambda: dict(Ctx.engine.np_errors), "linalg": linalg, "random": RandomStub(), "dtype": norm_dtype,
        "result_type": result_type, "promote_types": _np.promote_types, "can_cast": _np.can_cast,
        "issubdtype": issubdtype, "finfo": _np.finfo, "iinfo": _np.iinfo, "bool": _mk_dtype("bool_"),
        "set_printoptions": lambda **k: None, "array2string": lambda a, **k: repr(a), "may_share_memory": may_share, "shares_memory": may_share,
        "setdiff1d": _unmodelled("setdiff1d"), "frompyfunc": lambda f, i, o: vectorize(f), "block": block,
        "double": _mk_dtype("float64"), "ma": _unm_mod("numpy.ma"), "matrix": _unmodelled("matrix"),
        "lib": types.SimpleNamespace(stride_tricks=types.SimpleNamespace(sliding_window_view=sliding_window_view, as_strided=as_strided)),
        "__version__": _np.__version__, "exceptions": _np.exceptions, "vecdot": linalg.vecdot,
    })
    for n in "float64 float32 float16 int64 int32 int16 int8 uint8 uint16 uint32 uint64 bool_ intp longdouble".split():
        t[n] = _mk_dtype(n)
    t["float_"], t["int_"], t["uint"] = t["float64"], t["int64"], t["uint64"]
    for n, kinds in {"floating": "f", "integer": "i", "signedinteger": "i", "number": "if", "generic": "ifb", "inexact": "f"}.items():
        t[n] = _Abs(n, (), {"_kinds": kinds, "_real": getattr(_np, n)})
    m = Mod("numpy", _np, t)
    return m


def _unm_mod(name):
    return Mod(name, types.SimpleNamespace(), {})


def result_type(*a):
    return _np.result_type(*[x.dt if isinstance(x, SArr) else norm_dtype(x) if not isinstance(x, SReal) else x.dtype for x in a])


def issubdtype(a, b):
    a = norm_dtype(a)
    return _np.issubdtype(a, getattr(b, "_real", b))


def may_share(a, b, *r):
    return _np.shares_memory(a.a, b.a) if isinstance(a, SArr) and isinstance(b, SArr) else False


def ndenumerate(a):
    a = to_arr(a)
    for i in _np.ndindex(*a.shape):
        yield i, a.a[i]


def block(xs):
    if isinstance(xs, list) and xs and isinstance(xs[0], list):
        return concatenate([concatenate([to_arr(e) for e in r], axis=-1) for r in xs], axis=-2)
    return concatenate([to_arr(e) for e in xs], axis=-1)


def matrix_power(a, n):
    a = to_arr(a)
    n = _int(n)
    if n < 0:
        return matrix_power(arr.l_inv(a), -n)
    r = identity(len(a))
    for _ in range(n):
        r = matmul(r, a)
    return r


def l_eig(x):
    x = to_arr(x)
    return arr.eig_atoms(x)


def l_pinv(x, *a, **k):
    """pinv of a square matrix (assumed invertible)"""
    return arr.l_inv(x)


def l_lstsq(A, b, rcond=None):
    A = to_arr(A)
    if A.shape[0] != A.shape[1]:
        fail("lstsq of a non-square system")
    return arr.l_solve(A, b), None, None, None


NP = build()
