"""P05: affine projection update"""
from .common import *

OUTSIDE = "orders above 4, more samples or features than the bounds; rounding"
ASSUMPTIONS = ["ifc > 0"]


def mk(n, N, order, how, idle=0, havoc=True, default=False, ifc=None):
    def fn(H):
        fx = {"order": order}
        if ifc is not None:
            fx["ifc"] = ifc
        p = draw_params(H, "AP", **fx)
        args = dict(p)
        if default:
            p = dict(p, order=5, ifc=0.001)
            args = {"mu": p["mu"]}
        f = H.pa.filters.FilterAP(n=n, w="zeros", **args)
        xs, ds = [[0] * n for _ in range(order)], [0] * order
        for k in range(idle):
            x = [(k * 5 + 3 * i) % 7 - 3 for i in range(n)]
            xs, ds = [x] + xs[:-1], [0] + ds[:-1]
            if how == "adapt":
                f.adapt(0, H.array(x))
        if idle and how != "adapt":
            f.run(H.array([0] * idle), H.array([[(k * 5 + 3 * i) % 7 - 3 for i in range(n)] for k in range(idle)]))
        k = 0
        w = [0] * n
        while k < N:
            if havoc:
                w = H.reals("w%d_" % k, n)
                f.w = H.array(w)
            m = 1 if how in ("adapt", "single") else N if how == "run" else (1 if k % 3 == 0 else 2)
            m = min(m, N - k)
            X, D = H.grid("x%d_" % k, m, n), H.reals("d%d_" % k, m)
            if how == "adapt" or (how == "mixed" and m == 1):
                H.eq(f.predict(H.array(X[0])), H.dot(w, X[0]), "prediction")
                f.adapt(D[0], H.array(X[0]))
                rows = [w, H.leaves(f.w)]
            else:
                y, e, h = f.run(H.array(D), H.array(X))
                H.eq(h[0], w, "first weight row")
                rows = [H.leaves(h[j]) for j in range(m)] + [H.leaves(f.w)]
                for j in range(m):
                    H.eq(y[j], H.dot(rows[j], X[j]), "output is the newest entry")
                    H.eq(e[j], D[j] - H.dot(rows[j], X[j]), "error is the newest entry")
            for j in range(m):
                xs, ds = [X[j]] + xs[:-1], [D[j]] + ds[:-1]
                H.eq(H.vsub(rows[j + 1], rows[j]), ap_step(H, p, n, xs, ds, rows[j]), "increment of sample %d" % (k + j))
            w = rows[-1]
            k += m
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for how in ("adapt", "single"):
        for n, N, o in ((1, 4, 2), (2, 3, 2), (2, 3, 1), (1, 4, 3), (2, 3, 3), (3, 2, 2)) + (((2, 4, 3), (1, 5, 4), (4, 3, 2)) if th else ()):
            out.append(case("n%d-N%d-o%d-%s" % (n, N, o, how), mk(n, N, o, how), "n=%d, order %d, %d samples from arbitrary weights" % (n, o, N), n * N * o, time=400))
    for n, N, o in ((1, 3, 2), (2, 2, 2), (2, 2, 3)):
        out.append(case("n%d-N%d-o%d-run" % (n, N, o), mk(n, N, o, "run"), "n=%d, order %d, one run of %d" % (n, o, N), n * N * o, time=400))
    out.append(case("n1-N3-o2-mixed", mk(1, 4, 2, "mixed"), "n=1, order 2, 4 samples, runs and single calls", 6, time=400))
    out.append(case("n2-N3-o2-mixed", mk(2, 3, 2, "mixed"), "n=2, order 2, 3 samples, runs and single calls", 6, time=400))
    out.append(case("default-order", mk(2, 2, 5, "adapt", default=True), "default order and ifc, 2 samples", 6, time=400))
    for idle, how in ((7, "adapt"), (120, "adapt"), (300, "run"), (1100, "adapt")) + (((3500, "run"),) if th else ()):
        out.append(case("idle%d-%s" % (idle, how), mk(2, 1, 3, how, idle, ifc=0.5), "order 3, one sample after %d error-free ones" % idle, 20, time=400))
        out.append(case("idle%d-%s-2" % (idle, how), mk(2, 2, 2, how, idle, ifc=0.5), "order 2, two samples after %d error-free ones" % idle, 20, time=400))
    return out
