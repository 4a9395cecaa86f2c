"""P02: the record returned by a batch run"""
from .common import *

OUTSIDE = "more samples or features than the bounds; rounding"


def user_rule(n, N, prior=0, ap=0):
    """a learning rule of the user (any vectors whatsoever) in the base classes"""
    def fn(H):
        calls = []
        base = H.pa.filters.base_filter
        cls = base.AdaptiveFilterAP if ap else base.AdaptiveFilter

        class U(cls):
            kind = "user"

            def learning_rule(self, e, x):
                calls.append((H.snapshot(e), H.snapshot(x)))
                return H.array(H.reals("dw%d_" % len(calls), n))
        w = H.reals("w", n)
        f = U(n, H.real("mu"), w, **({"order": ap} if ap else {}))
        for r in range(prior + 1):
            M = N if r == prior else 2
            X, E = H.grid("x%d_" % r, M, n), H.reals("e%d_" % r, M)
            W, D, Y = [], [], []
            xh, dh = [], []
            c0 = len(calls)
            for k in range(M):
                W.append(list(w))
                Y.append(H.dot(w, X[k]))
                D.append(E[k] + Y[k])
                w = H.vadd(w, H.reals("dw%d_" % (c0 + k + 1), n))
            if r == prior and ap:
                pass
            y, e, h = f.run(H.array(D), H.array(X))
            H.eq(y, Y, "outputs")
            H.eq(e, E, "errors")
            H.eq(h, W, "weight rows")
            H.eq(f.w, w, "weights after the run")
            H.check(len(calls) == c0 + M, "the rule is used once per sample")
            for k in range(min(M, len(calls) - c0)):
                ce, cx = calls[c0 + k]
                if ap:
                    H.check(H.shape(cx) == (n, ap) and H.shape(ce) == (ap,), "shape of the histories")
                    if H.shape(cx) == (n, ap) and H.shape(ce) == (ap,):
                        H.eq([cx[i][0] for i in range(n)], X[k], "newest sample")
                        H.eq(ce[0], E[k], "newest error")
                        for j in range(1, min(ap, k + 1)):
                            H.eq([cx[i][j] for i in range(n)], X[k - j], "older sample")
                            H.eq(ce[j], D[k - j] - H.dot(W[k], X[k - j]), "older error")
                else:
                    H.eq(ce, E[k], "error handed to the rule")
                    H.eq(cx, X[k], "sample handed to the rule")
    return fn


def model(kind, n, N, idle=0, fixed=None):
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        R = Rule(H, kind, n, p)
        w = H.reals("w", n) if not idle else [0] * n
        f = make(H, kind, n, p, w if not idle else "zeros")
        X = [[(k * 5 + 2 * i) % 7 - 3 for i in range(n)] for k in range(idle)]
        W = [list(w) for _ in range(idle)]
        D, Y, E = [0] * idle, [0] * idle, [0] * idle
        for k in range(idle):
            R.step(0, X[k])
        for k in range(N):
            x, e = H.reals("x%d_" % k, n), H.real("e%d" % k)
            X.append(x)
            E.append(e)
            W.append(list(w))
            Y.append(H.dot(w, x))
            D.append(e + Y[-1])
            w = H.vadd(w, R.step(e, x))
        y, e, h = f.run(H.array(D), H.array(X))
        H.check(H.shape(h) == (idle + N, n), "shape of the weight record")
        H.eq(y, Y, "outputs")
        H.eq(e, E, "errors")
        if idle:
            H.eq(h[0], W[0], "first weight row")
            H.eq(h[idle:], W[idle:], "weight rows")
        else:
            H.eq(h, W, "weight rows")
        H.eq(f.w, w, "weights after the run")
    return fn


def record(kind, n, N, prior=0):
    """the model's own rule, asked step by step in a second filter with the same history, drives the expected record"""
    def fn(H):
        p = draw_params(H, kind)
        w = H.reals("w", n)
        f, t = make(H, kind, n, p, w), make(H, kind, n, p, w)
        for r in range(prior + 1):
            M = N if r == prior else 2
            W, Y, E, D, X = [], [], [], [], []
            for k in range(M):
                x, e = H.reals("x%d_%d_" % (r, k), n), H.real("e%d_%d" % (r, k))
                X.append(x)
                E.append(e)
                W.append(list(w))
                Y.append(H.dot(w, x))
                D.append(e + Y[-1])
                t.w = H.array(w)
                w = H.vadd(w, H.leaves(t.learning_rule(e, H.array(x))))
            y, e, h = f.run(H.array(D), H.array(X))
            H.check(H.shape(h) == (M, n), "shape of the weight record")
            H.eq(y, Y, "outputs")
            H.eq(e, E, "errors")
            H.eq(h, W, "weight rows")
            H.eq(f.w, w, "weights after the run")
    return fn


def weights_set(kind, n):
    """weights assigned from outside between runs are the start of the next run"""
    def fn(H):
        p = draw_params(H, kind)
        f = make(H, kind, n, p, H.reals("w", n))
        x, e = H.reals("x", n), H.real("e")
        f.run(H.array([e]), H.array([x]))
        v = H.reals("v", n)
        f.w = H.array(v)
        z, d = H.reals("z", n), H.real("d")
        y, e, h = f.run(H.array([d]), H.array([z]))
        H.eq(h, [v], "first row is the weights before the run")
        H.eq(y, [H.dot(v, z)], "output")
        H.eq(e, [d - H.dot(v, z)], "error")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, N, prior in ((1, 1, 0), (2, 3, 1), (3, 2, 0), (1, 6, 2), (4, 4, 1)) + (((3, 40, 0), (8, 8, 1), (2, 20, 3)) if th else ((2, 12, 0),)):
        out.append(case("user-n%d-N%d-p%d" % (n, N, prior), user_rule(n, N, prior), "user rule, n=%d, %d samples after %d runs" % (n, N, prior), n * N))
    for n, N, ap in ((1, 3, 2), (2, 3, 3), (2, 2, 1)):
        out.append(case("userAP-n%d-N%d-o%d" % (n, N, ap), user_rule(n, N, 0, ap), "user rule in the AP base, order %d" % ap, n * N))
    for kind in MEMORYLESS + RECURSIVE:
        out.append(case(kind + "-n2-N2", model(kind, 2, 2), "n=2, 2 samples, against the documented rule", 5, time=200))
        out.append(case(kind + "-n5-N1", model(kind, 5 if kind not in ("SSLMS", "NSSLMS") else 3, 1), "n=5, 1 sample, against the documented rule", 3, time=200))
        for n, N, prior in ((2, 3, 0), (1, 4, 0), (1, 2, 2), (4, 2, 0)) + (((3, 3, 1), (1, 8, 0)) if th else ()):
            out.append(case(kind + "-rec-n%d-N%d-p%d" % (n, N, prior), record(kind, n, N, prior), "n=%d, %d samples after %d runs, against the model's own rule" % (n, N, prior), 5, time=200))
        if kind not in RECURSIVE:
            out.append(case(kind + "-n1-N30", record(kind, 1, 80 if th else 30), "n=1, %d samples, against the model's own rule" % (80 if th else 30), 10, time=200))
        for idle in (31, 299, 700, 1050) + ((5000,) if th else ()):
            out.append(case(kind + "-idle%d" % idle, model(kind, 2, 2 if kind in MEMORYLESS else 1, idle), "n=2, %d symbolic samples after %d error-free ones" % (2 if kind in MEMORYLESS else 1, idle), 10, time=200))
    out.append(case("RLS", rls(2, 2), "RLS n=2, 2 samples", 10, time=200))
    out.append(case("RLS1", rls(1, 3), "RLS n=1, 3 samples", 10, time=200))
    out.append(case("AP-n2", ap_model(2, 2, 2), "AP n=2, order 2, 2 samples", 10, time=200))
    out.append(case("AP-n1", ap_model(1, 3, 2), "AP n=1, order 2, 3 samples", 10, time=200))
    out.append(case("AP-o1", ap_model(2, 2, 1), "AP n=2, order 1, 2 samples", 10, time=200))
    for kind in PLAIN + ["AP"]:
        out.append(case(kind + "-set", weights_set(kind, 2), "weights replaced between runs", 3))
    return out


def rls(n, N):
    def fn(H):
        p = draw_params(H, "RLS")
        w = H.reals("w", n)
        f = make(H, "RLS", n, p, w)
        # A_k (w_{k+1} - w_k) = e_k x_k,  A_k = mu A_{k-1} + x_k x_k^T,  A_0 = eps I
        A = [[p["eps"] if i == j else 0 for j in range(n)] for i in range(n)]
        X, E, D = H.grid("x", N, n), H.reals("e", N), []
        for k in range(N):
            D.append(E[k] + H.dot(w, X[k]))
            A = [[p["mu"] * A[i][j] + X[k][i] * X[k][j] for j in range(n)] for i in range(n)]
            inv = H.inverse(A)
            w = H.vadd(w, [H.dot(inv[i], X[k]) * E[k] for i in range(n)])
        y, e, h = f.run(H.array(D), H.array(X))
        H.eq(e, E, "errors")
        H.eq(h[0], H.reals("w", n), "first row")
        for k in range(N):
            H.eq(y[k], H.dot(H.leaves(h[k]), X[k]), "output is the inner product with the row")
            H.eq(y[k] + e[k], D[k], "output + error = target")
        rows = [H.leaves(h[k]) for k in range(N)] + [H.leaves(f.w)]
        A = [[p["eps"] if i == j else 0 for j in range(n)] for i in range(n)]
        for k in range(N):
            A = [[p["mu"] * A[i][j] + X[k][i] * X[k][j] for j in range(n)] for i in range(n)]
            dw = H.vsub(rows[k + 1], rows[k])
            for i in range(n):
                H.eq(H.dot(A[i], dw), E[k] * X[k][i], "increment of sample %d" % k)
    return fn


def ap_model(n, N, order):
    def fn(H):
        p = draw_params(H, "AP", order=order)
        w = H.reals("w", n)
        f = make(H, "AP", n, p, w)
        X, D = H.grid("x", N, n), H.reals("d", N)
        y, e, h = f.run(H.array(D), H.array(X))
        H.eq(h[0], w, "first row")
        rows = [H.leaves(h[k]) for k in range(N)] + [H.leaves(f.w)]
        for k in range(N):
            H.eq(y[k], H.dot(rows[k], X[k]), "output is the inner product with the row")
            H.eq(e[k], D[k] - H.dot(rows[k], X[k]), "error is target - output")
            H.eq(H.vsub(rows[k + 1], rows[k]), ap_step(H, p, n, [X[k - j] if k >= j else [0] * n for j in range(order)],
                                                      [D[k - j] if k >= j else 0 for j in range(order)], rows[k]), "increment")
    return fn
