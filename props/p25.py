"""P25: extreme seeking entropy"""
import math
from .common import *

OUTSIDE = "the fit of the generalized Pareto distribution itself (scipy; an uninterpreted function of the peaks and the location); sample k = window; windows for which a method's count is within rounding of an integer"
ASSUMPTIONS = ["scipy.stats.genpareto.fit/cdf are functions of their arguments; cdf values lie in [0,1]"]


def count(method, n):
    """number of peaks"""
    if method.endswith("%"):
        c = n * int(method[:-1]) // 100
    elif method == "sqrt":
        c = math.isqrt(n)
    elif method == "log10":
        c = len(str(n)) - 1
    else:
        c = int(n ** (2.0 / 3.0) / math.log10(math.log10(n)))
    return max(c, 1)


def order_desc(H, xs):
    """descending order of scalars; comparisons fork"""
    out = []
    for x in xs:
        i = 0
        while i < len(out) and out[i] >= x:
            i += 1
        out.insert(i, x)
    return out


def mk(N, n, window, method, idle=0, how="keyword"):
    def fn(H):
        w = [[Fr((7 * k * k + 3 * k + 5 * i * k) % 23 - 11, 4) for i in range(n)] for k in range(idle)]
        w = [[float(a) for a in r] if H.concrete else r for r in w]
        w += H.grid("w", N, n)
        M = len(w)
        W = H.array(w)
        if how == "default":
            r = H.pa.detection.ESE(W)
        elif how == "positional":
            r = H.pa.detection.ESE(W, window, method)
        else:
            r = H.pa.detection.ESE(W, window=window, pot_method=method)
        H.eq(H.shape(r), (M,), "shape")
        r = H.leaves(r)
        inc = [None] + [[H.abs(w[k][i] - w[k - 1][i]) for i in range(n)] for k in range(1, M)]
        for k in range(M):
            if k < window:
                H.eq(r[k], 0, "sample %d, before the first window" % k)
            elif k > window:
                if idle and k < M - 2:
                    continue
                prod = None
                for i in range(n):
                    win = [inc[j][i] for j in range(k - window, k)]
                    peaks = order_desc(H, win)[:count(method, window)]
                    if inc[k][i] > peaks[-1]:
                        tiny = Fr(1, 10**20) if not H.concrete else 1e-20
                        v = tiny + H.gp_exceed(peaks, peaks[-1], inc[k][i])
                        prod = v if prod is None else prod * v
                if prod is None:
                    H.eq(r[k], 0, "sample %d, nothing exceeded" % k)
                else:
                    H.eq(r[k], -H.log10(prod), "sample %d" % k)
    return fn


METHODS = ["10%", "30%", "35%", "sqrt", "log10", "log10log10"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for N, n, win in ((4, 1, 2), (3, 2, 1), (5, 1, 3), (3, 1, 1), (4, 2, 2)) + (((6, 1, 4), (4, 3, 2)) if th else ()):
        for m in METHODS[:-1]:
            if n == 2 and N == 4 and m in ("30%", "log10"):
                continue
            out.append(case("N%d-n%d-win%d-%s" % (N, n, win, m), mk(N, n, win, m), "%d samples, %d weights, window %d" % (N, n, win), N * n * win, time=400))
    for win in (11, 20, 40, 100, 250) + ((400, 900) if th else ()):
        for m in METHODS:
            if m == "log10" and win == 1000:
                continue
            out.append(case("n1-win%d-%s" % (win, m), mk(1, 1, win, m, idle=win + 2), "window %d, the last of %d rows symbolic" % (win, win + 3), 10, time=400))
            if win <= 40:
                out.append(case("n2-win%d-%s" % (win, m), mk(1, 2, win, m, idle=win + 3, how="positional"), "window %d, the last of %d rows symbolic, 2 weights" % (win, win + 4), 10, time=400))
    for win in list(range(4, 37)) + [49, 50, 64, 99, 101, 120, 128]:
        for m in METHODS:
            if win <= 10 and m == "log10log10" or win in (11, 20, 40, 100):
                continue
            if m.endswith("%") and int(int(m[:-1]) / 100 * win) != win * int(m[:-1]) // 100:
                continue
            out.append(case("n1-win%d-%s" % (win, m), mk(1, 1, win, m, idle=win + 2), "window %d, the last of %d rows symbolic" % (win, win + 3), 10, time=400))
    for n in (4, 7):
        out.append(case("wide%d" % n, mk(1, n, 3, "sqrt", idle=6), "window 3, the last of 7 rows symbolic, %d weights" % n, 10, time=400))
    for m in ("10%", "sqrt"):
        out.append(case("late-%s" % m, mk(2, 1, 10, m, idle=103), "window 10, the last 2 of 105 rows symbolic", 12, time=400))
    out.append(case("default", mk(1, 1, 1000, "10%", idle=1001, how="default"), "default window and method, the last of 1002 rows symbolic", 30, time=400))
    return out
