"""P04: recursions of GNGD and the VSLMS filters"""
from .common import *

OUTSIDE = "more samples or features than the bounds; rounding"
ASSUMPTIONS = ["GNGD: eps_k + |x_k|^2 != 0 and eps_{k-1} + |x_{k-1}|^2 != 0"]


def mk(kind, n, N, how, idle=0, fixed=None):
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        R = Rule(H, kind, n, p)
        f = make(H, kind, n, p, "zeros")
        for k in range(idle):
            x = [(k * 5 + 3 * i) % 7 - 3 for i in range(n)]
            if how == "adapt":
                f.adapt(0, H.array(x))
            R.step(0, x)
        if idle and how != "adapt":
            f.run(H.array([0] * idle), H.array([[(k * 5 + 3 * i) % 7 - 3 for i in range(n)] for k in range(idle)]))
        mode = how
        k = 0
        while k < N:
            # weights are set before every call: the recursion must not depend on them
            w = H.reals("w%d_" % k, n)
            f.w = H.array(w)
            m = 1 if how in ("adapt", "single") else 2 if how == "pairs" else N if how == "run" else (2 if k % 3 else 1)
            m = min(m, N - k)
            X, E = H.grid("x%d_" % k, m, n), H.reals("e%d_" % k, m)
            D, W = [], [list(w)]
            for j in range(m):
                D.append(E[j] + H.dot(W[-1], X[j]))
                W.append(H.vadd(W[-1], R.step(E[j], X[j])))
            if how == "adapt" or (how == "mixed" and m == 1):
                f.adapt(D[0], H.array(X[0]))
            else:
                y, e, h = f.run(H.array(D), H.array(X))
                H.eq(h, W[:-1], "weight rows from sample %d" % k)
            H.eq(f.w, W[-1], "weights after sample %d" % (k + m - 1))
            k += m
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for kind in RECURSIVE:
        big = kind == "GNGD"
        out.append(case(kind + "-n2-adapt", mk(kind, 2, 3 if big else 4, "adapt"), "n=2, 4 single samples (GNGD 3)", 20, time=250))
        out.append(case(kind + "-n2-single", mk(kind, 2, 3, "single"), "n=2, 3 runs of one sample", 20, time=250))
        out.append(case(kind + "-n2-pairs", mk(kind, 2, 3, "pairs"), "n=2, 3 samples, runs of two", 20, time=250))
        out.append(case(kind + "-n1-mixed", mk(kind, 1, 4, "mixed"), "n=1, 4 samples, runs and single calls", 20, time=250))
        out.append(case(kind + "-n1-adapt", mk(kind, 1, 4 if big else 5, "adapt"), "n=1, 5 single samples (GNGD 4)", 20, time=250))
        out.append(case(kind + "-n3-adapt", mk(kind, 3, 3, "adapt"), "n=3, 3 single samples", 20, time=250))
        for n in (20, 70) if kind != "VSLMS_BENVENISTE" else (12,):
            out.append(case(kind + "-n%d-adapt" % n, mk(kind, n, 2, "adapt"), "n=%d, 2 single samples" % n, 20, time=250))
        out.append(case(kind + "-n6-adapt", mk(kind, 6, 2, "adapt"), "n=6, 2 single samples", 20, time=250))
        for idle, how in ((40, "adapt"), (270, "run"), (270, "adapt"), (1050, "adapt"), (1050, "run")) + (((5200, "run"),) if th else ()):
            out.append(case(kind + "-idle%d-%s" % (idle, how), mk(kind, 2, 2, how, idle), "n=2, 2 samples after %d error-free ones" % idle, 20, time=250))
    return out
