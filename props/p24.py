"""P24: multiscale learning entropy"""
from .common import *
from .p23 import diffs

OUTSIDE = "larger histories, windows and orders than the bounds; samples m <= k < m + order; rounding at the thresholds"


def mk(N, n, m, order, na, form, idle=0, fixed=None):
    def fn(H):
        w = [[(3 * k * k + 5 * i) % 11 - 5 for i in range(n)] for k in range(idle)] + H.grid("w", N, n)
        M = len(w)
        al = H.reals("alpha", na) if fixed is None else fixed
        A = list(al) if form == "list" else tuple(al) if form == "tuple" else H.array(al)
        kw = {"order": order} if order != 1 or form == "list" else {}
        if m != 10 or form == "list":
            kw["m"] = m
        r = H.pa.detection.learning_entropy(H.array(w), alpha=A, **kw)
        H.eq(H.shape(r), (M,), "shape")
        r = H.leaves(r)
        D = diffs(H, w, order)
        for k in range(M):
            if k < m:
                H.eq(r[k], 0, "sample %d, before the first window" % k)
                continue
            if not (idle and k < idle):
                H.check(H.and_(r[k] >= 0, r[k] <= 1), "sample %d between 0 and 1" % k)
            if k >= m + order and not (idle and k < idle):
                c = 0
                for i in range(n):
                    mu = H.mean([H.abs(D[j][i]) for j in range(k - m, k)])
                    for a in al:
                        c = c + H.ind(H.abs(D[k][i]) > H.exact(a) * mu)
                H.eq(r[k], c / Fr(n * na) if not H.concrete else c / float(n * na), "sample %d" % k)
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for N, n, m, o, na in ((4, 1, 2, 1, 1), (4, 2, 1, 1, 2), (5, 1, 3, 1, 2), (5, 1, 2, 2, 1), (4, 2, 2, 1, 1), (6, 1, 2, 3, 2), (4, 1, 1, 2, 3), (3, 3, 1, 1, 1)) + (
            ((8, 1, 4, 2, 2), (6, 2, 3, 1, 2)) if th else ()):
        for form in ("list", "tuple", "array"):
            out.append(case("N%d-n%d-m%d-o%d-a%d-%s" % (N, n, m, o, na, form), mk(N, n, m, o, na, form),
                            "%d samples, %d weights, window %d, order %d, %d sensitivities as %s" % (N, n, m, o, na, form), N, time=300))
    for form in ("list", "array"):
        out.append(case("defaults-" + form, mk(2, 2, 10, 1, 2, form, idle=12), "default window and order, last 2 of 14 rows symbolic", 8, time=300))
        out.append(case("ints-" + form, mk(4, 2, 2, 1, 3, form, fixed=[1, 2, 4]), "integer sensitivities", 8, time=300))
        out.append(case("zero-" + form, mk(4, 1, 2, 1, 2, form, fixed=[0, 0.5]), "a zero sensitivity", 8, time=300))
    for m in range(1, 33):
        out.append(case("window%d" % m, mk(2, 1, m, 1, 1, "array", idle=m + 3), "window %d, last 2 of %d rows symbolic" % (m, m + 5), 8, time=300))
    for m, o, idle in ((50, 1, 80), (100, 2, 120), (129, 3, 140), (256, 1, 260), (10, 1, 300), (10, 1, 1100), (7, 4, 50), (3, 9, 40), (400, 1, 405)):
        out.append(case("long-m%d-o%d-%d" % (m, o, idle), mk(1, 1, m, o, 2, "list", idle=idle), "window %d, order %d, last of %d rows symbolic" % (m, o, idle + 1), 8, time=300))
    for n, na in ((5, 3), (17, 2), (65, 1), (1, 12), (2, 33), (129, 2)):
        out.append(case("wide%d-%d" % (n, na), mk(1, n, 3, 1, na, "array", idle=6), "%d weights, %d sensitivities, last row symbolic" % (n, na), 8, time=300))
    return out
