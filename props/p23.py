"""P23: direct learning entropy"""
from .common import *

OUTSIDE = "larger histories, windows and orders than the bounds; samples m <= k < m + order (their window starts before the first defined difference); rounding"


def diffs(H, w, order):
    """order-th backward differences; None where undefined"""
    d = [list(r) for r in w]
    first = 0
    for _ in range(order):
        first += 1
        d = [None] * first + [[a - b for a, b in zip(d[k], d[k - 1])] for k in range(first, len(d))]
    return d


def mk(N, n, m, order, how="array", alpha="absent", idle=0):
    def fn(H):
        w = [[(3 * k * k + 5 * i) % 11 - 5 for i in range(n)] for k in range(idle)] + H.grid("w", N, n)
        M = len(w)
        args = {} if alpha == "absent" else {"alpha": {"none": None, "false": False, "empty": []}[alpha]}
        W = H.array(w) if how == "array" else w
        if how == "defaults":
            r = H.pa.detection.learning_entropy(H.array(w), **args)
        elif how == "positional":
            r = H.pa.detection.learning_entropy(H.array(w), m, order)
        else:
            r = H.pa.detection.learning_entropy(W, m=m, order=order, **args)
        H.eq(H.shape(r), (M, n), "shape")
        r = H.snapshot(r)
        D = diffs(H, w, order)
        tiny = Fr(1, 10**10)
        for k in range(M):
            for i in range(n):
                if k < m:
                    H.eq(r[k][i], 0, "row %d, before the first window" % k)
                elif k >= m + order:
                    if idle and k < idle:
                        continue
                    win = [H.abs(D[j][i]) for j in range(k - m, k)]
                    mu = H.mean(win)
                    sd = H.sqrt(H.mean([(a - mu) ** 2 for a in win]))
                    H.eq(r[k][i], (H.abs(D[k][i]) - mu) / (sd + (tiny if not H.concrete else float(tiny))), "row %d" % k)
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for N, n, m, o in ((4, 1, 2, 1), (4, 2, 1, 1), (5, 1, 3, 1), (5, 1, 2, 2), (5, 2, 2, 1), (6, 1, 2, 3), (4, 1, 1, 2), (6, 1, 4, 1), (7, 1, 2, 1), (5, 3, 1, 2)) + (
            ((9, 1, 5, 2), (8, 2, 3, 1), (10, 1, 4, 4)) if th else ()):
        for how in ("array", "list", "positional"):
            out.append(case("N%d-n%d-m%d-o%d-%s" % (N, n, m, o, how), mk(N, n, m, o, how), "%d samples, %d weights, window %d, order %d" % (N, n, m, o), N, time=300))
        out.append(case("N%d-n%d-m%d-o%d-none" % (N, n, m, o), mk(N, n, m, o, "array", "none"), "alpha=None", N, time=300))
        out.append(case("N%d-n%d-m%d-o%d-empty" % (N, n, m, o), mk(N, n, m, o, "array", "empty"), "alpha=[]", N, time=300))
        out.append(case("N%d-n%d-m%d-o%d-false" % (N, n, m, o), mk(N, n, m, o, "array", "false"), "alpha=False", N, time=300))
    out.append(case("defaults", mk(3, 1, 10, 1, "defaults", idle=10), "default window and order, last 3 of 13 rows symbolic", 8, time=300))
    out.append(case("defaults-n2", mk(2, 2, 10, 1, "defaults", idle=22), "default window and order, last 2 of 24 rows symbolic", 8, time=300))
    out.append(case("m30-o2", mk(2, 2, 30, 2, idle=60), "window 30, order 2, last 2 of 62 rows symbolic", 8, time=300))
    for m in range(1, 33):
        out.append(case("window%d" % m, mk(2, 1, m, 1, "array", idle=m + 3), "window %d, last 2 of %d rows symbolic" % (m, m + 5), 8, time=300))
    for m, o, idle in ((50, 1, 80), (100, 2, 120), (101, 1, 110), (129, 3, 140), (255, 1, 260), (256, 1, 260), (10, 1, 300), (10, 1, 1100), (7, 4, 50), (5, 6, 30), (3, 9, 40), (400, 1, 405)):
        out.append(case("long-m%d-o%d-%d" % (m, o, idle), mk(2, 1, m, o, "array", idle=idle), "window %d, order %d, last 2 of %d rows symbolic" % (m, o, idle + 2), 8, time=300))
    for n in (8, 17, 33, 129):
        out.append(case("wide%d" % n, mk(1, n, 3, 1, "array", idle=6), "%d weights, last row symbolic" % n, 8, time=300))
    return out
