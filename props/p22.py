"""P22: ELBND"""
from .common import *

OUTSIDE = "larger weight histories than the bounds; rounding"


def mk(N, n, fun, elist=False, how="positional", from_filter=None):
    def fn(H):
        w, e = H.grid("w", N, n), H.reals("e", N)
        if how == "default":
            r = H.pa.detection.ELBND(H.array(w), H.array(e))
        elif how == "keyword":
            r = H.pa.detection.ELBND(w=H.array(w), e=H.array(e), function=fun)
        else:
            r = H.pa.detection.ELBND(H.array(w), H.array(e), fun)
        H.eq(H.shape(r), (N,), "shape")
        g = H.leaves(r)
        for k in range(N):
            if k == N - 1:
                H.eq(g[k], 0, "last sample")
                continue
            v = [H.abs((w[k + 1][i] - w[k][i]) * e[k]) for i in range(n)]
            if fun == "sum":
                H.eq(g[k], H.total(v), "sample %d" % k)
            elif n <= 2 or N <= 2:
                H.eq(g[k], H.max(v), "sample %d" % k)
            # the maximum by its definition: reached, and not exceeded
            if fun == "max":
                for i in range(n):
                    H.check(g[k] >= v[i], "sample %d at least weight %d" % (k, i)) if not H.concrete else H.le(v[i], g[k], "sample %d at least weight %d" % (k, i))
                H.check(H.or_(*[H.same(g[k], a) for a in v]), "sample %d is one of the values" % k)
            H.check(g[k] >= 0, "sample %d not negative" % k)
    return fn


def long(N, n, fun, free=3):
    """long histories; only some rows are symbolic"""
    def fn(H):
        w = [[(k * 7 + 3 * i) % 11 - 5 for i in range(n)] for k in range(N)]
        e = [(k * 5) % 9 - 4 for k in range(N)]
        for k in {0, N // 2, N - 2, N - 1} if N > 4 else range(N):
            if 0 <= k < N:
                w[k] = H.reals("w%d_" % k, n)
                e[k] = H.real("e%d" % k)
        r = H.pa.detection.ELBND(H.array(w, dtype="float64"), H.array(e, dtype="float64"), fun)
        H.eq(H.shape(r), (N,), "shape")
        f = H.total if fun == "sum" else H.max
        H.eq(r, [f([H.abs((w[k + 1][i] - w[k][i]) * e[k]) for i in range(n)]) for k in range(N - 1)] + [0], "values")
    return fn


def filt(kind, fun):
    """on the record of a filter run"""
    def fn(H):
        n = 2
        f = make(H, kind, n, draw_params(H, kind), H.reals("w", n))
        X, D = H.grid("x", 2, n), H.reals("d", 2)
        y, e, h = f.run(H.array(D), H.array(X))
        hh, ee = H.snapshot(h), H.snapshot(e)
        r = H.pa.detection.ELBND(h, e, fun)
        v = [H.abs((hh[1][i] - hh[0][i]) * ee[0]) for i in range(n)]
        H.eq(r, [H.total(v) if fun == "sum" else H.max(v), 0], "values")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for N, n in ((1, 1), (2, 1), (2, 2), (3, 2), (4, 1), (2, 4), (3, 3), (5, 2), (12, 1)) + (((6, 4), (20, 2), (4, 8)) if th else ()):
        for fun in ("max", "sum"):
            for how in ("positional", "keyword"):
                out.append(case("%dx%d-%s-%s" % (N, n, fun, how), mk(N, n, fun, how=how), "%d samples, %d weights" % (N, n), N * n, time=300))
        out.append(case("%dx%d-default" % (N, n), mk(N, n, "max", how="default"), "%d samples, %d weights" % (N, n), N * n, time=300))
    for N in list(range(1, 41)) + [64, 100, 128, 129, 257, 1025, 2100] + (list(range(41, 140)) + [5003, 10007] if th else []):
        for fun in ("max", "sum"):
            out.append(case("long%d-%s" % (N, fun), long(N, 1 if N > 20 else 2, fun), "%d samples, four of them symbolic" % N, N / 100, time=300))
    for n in (16, 65, 129):
        out.append(case("wide%d-sum" % n, long(2, n, "sum"), "2 samples, %d weights" % n, n / 20, time=300))
    for k in ("LMS", "SSLMS"):
        for fun in ("max", "sum"):
            out.append(case("%s-%s" % (k, fun), filt(k, fun), "record of a run with 2 samples and 2 weights", 4, time=300))
    return out
