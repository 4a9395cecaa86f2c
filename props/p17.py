"""P17: history matrix"""
from .common import case

OUTSIDE = "series longer than the bounds; series shorter than the window"


def mk(L, n, bias, dtype):
    def fn(H):
        a = H.ints("a", L) if dtype == "int" else H.reals("a", L)
        if dtype == "list":
            arg = list(a)
        else:
            arg = H.array(a, dtype="int64" if dtype == "int" else "float64")
        x = H.pa.input_from_history(arg, n, bias=bias) if bias is not None else H.pa.input_from_history(arg, n)
        exp = [[a[i + j] for j in range(n)] + ([1] if bias else []) for i in range(L - n + 1)]
        H.is_float(x, "matrix")
        H.eq(x, exp, "history")
        H.eq(H.pa.preprocess.input_from_history(arg, n, bool(bias)), exp, "history (preprocess)")
    return fn


def gaps(L, n, bias, bad):
    """missing and infinite values stay where they are"""
    def fn(H):
        a = H.reals("a", L)
        for k in bad:
            v = list(a)
            v[k] = float("nan") if k % 2 == 0 else float("inf")
            for arg in (H.array(v), v):
                x = H.pa.input_from_history(arg, n, bias=bias)
                H.eq(H.shape(x), (L - n + 1, n + bool(bias)), "shape with a missing or infinite value at %d" % k)
                rows = H.snapshot(x)
                for i in range(L - n + 1):
                    for j in range(n):
                        if i + j != k:
                            H.eq(rows[i][j], a[i + j], "row %d, column %d" % (i, j))
                        else:
                            H.check(isinstance(rows[i][j], float) and repr(float(rows[i][j])) == repr(v[k]), "row %d, column %d is %r" % (i, j, v[k]))
                    if bias:
                        H.eq(rows[i][n], 1, "bias")
    return fn


def cases(tier):
    out = []
    sizes = [(L, n) for L in range(1, 9) for n in range(1, L + 1)] + [(40, 3), (60, 25), (130, 2), (130, 129), (300, 5), (1100, 2), (2300, 3)]
    if tier == "thorough":
        sizes += [(L, n) for L in range(9, 26) for n in range(1, L + 1)] + [(1500, 4), (700, 350), (5000, 2), (9000, 1)]
    for L, n in sizes:
        for bias in (None, True):
            for dt in ("float", "int", "list"):
                if L > 8 and dt == "list" and tier == "quick":
                    continue
                out.append(case("L%d-n%d-%s-%s" % (L, n, "bias" if bias else "plain", dt), mk(L, n, bias, dt),
                                "series of %d symbolic numbers, window %d" % (L, n), cost=L * n))
    for L, n in ((1, 1), (4, 2), (5, 3), (6, 6)):
        for bias in (False, True):
            out.append(case("gaps-L%d-n%d-%d" % (L, n, bias), gaps(L, n, bias, range(L)), "series of %d numbers, one of them missing or infinite, window %d" % (L, n), cost=L * n))
    return out
