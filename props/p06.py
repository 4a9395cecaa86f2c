"""P06: RLS solves the exponentially weighted least-squares problem"""
from .common import *

OUTSIDE = "more samples or features than the bounds; rounding (numerical instability of the recursion)"
ASSUMPTIONS = ["0 < mu, eps > 0"]


def mk(n, N, how, idle=0, havoc=False, fixed=None, tail_x=None):
    """normal equations after every sample (havoc: their incremental form from arbitrary weights)"""
    def fn(H):
        p = draw_params(H, "RLS", **(fixed or {}))
        mu, eps = H.exact(p["mu"]), H.exact(p["eps"])
        w0 = H.reals("w", n) if not idle else [0] * n
        f = make(H, "RLS", n, p, w0)
        A = [[eps if i == j else 0 for j in range(n)] for i in range(n)]
        b = [0] * n

        def add(x, r):
            """one more sample in the sums; r = d - <w0, x>"""
            for i in range(n):
                for j in range(n):
                    A[i][j] = mu * A[i][j] + x[i] * x[j]
                b[i] = mu * b[i] + x[i] * r
        old = [[(k * 5 + 3 * i) % 7 - 3 for i in range(n)] for k in range(idle)]
        for x in old:
            add(x, 0)
            if how == "adapt":
                f.adapt(0, H.array(x))
        if idle and how != "adapt":
            f.run(H.array([0] * idle), H.array(old))
        if havoc:
            for k in range(N):
                w, x, e = H.reals("v%d_" % k, n), H.reals("x%d_" % k, n), H.real("e%d" % k)
                f.w = H.array(w)
                d = e + H.dot(w, x)
                if how == "adapt":
                    f.adapt(d, H.array(x))
                else:
                    f.run(H.array([d]), H.array([x]))
                add(x, 0)
                dw = H.vsub(H.leaves(f.w), w)
                for i in range(n):
                    H.eq(H.dot(A[i], dw), x[i] * e, "incremental normal equation %d after sample %d" % (i, k))
            return
        X, E = H.grid("x", N, n), H.reals("e", N)
        rows = []
        D = []
        if how == "adapt":
            for k in range(N):
                x = H.array(X[k])
                D.append(E[k] + f.predict(x))
                f.adapt(D[k], x)
                rows.append(H.leaves(f.w))
        else:
            g = make(H, "RLS", n, p, w0)           # only to write targets as prediction + error
            for x in old:
                g.adapt(0, H.array(x))
            for k in range(N):
                x = H.array(X[k])
                D.append(E[k] + g.predict(x))
                g.adapt(D[k], x)
            y, e, h = f.run(H.array(D), H.array(X))
            rows = [H.leaves(h[k]) for k in range(1, N)] + [H.leaves(f.w)]
        for k in range(N):
            add(X[k], D[k] - H.dot(w0, X[k]))
            dw = H.vsub(rows[k], w0)
            for i in range(n):
                H.eq(H.dot(A[i], dw), b[i], "normal equation %d after sample %d" % (i, k))
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for how in ("adapt", "run"):
        out.append(case("n1-N3-" + how, mk(1, 3, how), "n=1, 3 samples", 20, time=400))
        out.append(case("n2-N2-" + how, mk(2, 2, how), "n=2, 2 samples", 20, time=400))
        out.append(case("n3-N1-" + how, mk(3, 1, how), "n=3, 1 sample", 10, time=400))
        out.append(case("n1-N4-havoc-" + how, mk(1, 4, how, havoc=True), "n=1, 4 samples, arbitrary weights", 20, time=400))
        out.append(case("n2-N2-havoc-" + how, mk(2, 2, how, havoc=True), "n=2, 2 samples, arbitrary weights", 20, time=400))
        out.append(case("n3-N2-havoc-" + how, mk(3, 2, how, havoc=True), "n=3, 2 samples, arbitrary weights", 20, time=400))
        out.append(case("n5-N1-havoc-" + how, mk(5, 1, how, havoc=True), "n=5, 1 sample, arbitrary weights", 20, time=400))
        out.append(case("idle-mu1-" + how, mk(2, 1, how, 120, fixed={"mu": 1, "eps": 2}), "n=2, one sample after 120 error-free ones, mu=1", 20, time=400))
        out.append(case("idle-mu1-long-" + how, mk(2, 1, how, 610, fixed={"mu": 1, "eps": 2}), "n=2, one sample after 610 error-free ones, mu=1", 20, time=400))
        # (forgetting is kept near 1 in the long histories: implementations may let rounding errors grow by 1/mu per sample)
        out.append(case("idle-mu05-" + how, mk(2, 1, how, 12, fixed={"mu": 0.5, "eps": 0.25}), "n=2, one sample after 12 error-free ones, mu=1/2", 20, time=400))
        out.append(case("idle-mu09-" + how, mk(2, 1, how, 60, fixed={"mu": 0.9375, "eps": 0.25}), "n=2, one sample after 60 error-free ones, mu=15/16", 20, time=400))
        out.append(case("idle-mu099-" + how, mk(2, 2, how, 20, fixed={"mu": 0.99, "eps": 0.1}), "n=2, two samples after 20 error-free ones", 20, time=400))
    return out
