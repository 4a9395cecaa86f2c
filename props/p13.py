"""P13: pretrained run == epochs of training runs, then a run over the rest"""
from .common import *

OUTSIDE = "an empty training or test part (the code raises IndexError); more samples, features or epochs than the bounds; training shares outside [0,1]"


def mk(kind, n, N, epochs, share=None, kw=True, idle=0, w0="sym", fixed=None):
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        w = H.reals("w", n) if w0 == "sym" else "zeros"
        r = share
        if share is None:
            r = H.real("r")
            H.assume([r >= 0, r <= 1])
        M = idle + N
        T = int(M * r)
        H.assume([T >= 1, T < M])
        X = [[(k * 7 + 3 * i) % 5 - 2 for i in range(n)] for k in range(idle)]
        X += [H.reals("x%d_" % k, n) for k in range(N)]
        # the targets are written as prediction + error of the first pass that reaches them
        ref = make(H, kind, n, p, w)
        D = [0] * idle
        if T > idle or not idle:
            if idle:
                ref.run(H.array(D), H.array(X[:idle]))
            for k in range(idle, max(T, 0)):
                D.append(H.real("e%d" % (k - idle)) + ref.predict(H.array(X[k])))
                ref.adapt(D[k], H.array(X[k]))
            for _ in range(1, epochs):
                if T:
                    ref.run(H.array(D[:T]), H.array(X[:T]))
        else:
            for _ in range(epochs):
                if T:
                    ref.run(H.array(D[:T]), H.array(X[:T]))
            ref.run(H.array(D[T:]), H.array(X[T:idle]))
        Y, E, W = [], [], []
        mark = H.snapshot(ref.w)
        if idle and T <= idle:
            # repeated from the start of the test part
            g = make(H, kind, n, p, w)
            for _ in range(epochs):
                if T:
                    g.run(H.array(D[:T]), H.array(X[:T]))
            ref = g
            for k in range(T, idle):
                W.append(H.snapshot(ref.w))
                Y.append(ref.predict(H.array(X[k])))
                E.append(D[k] - Y[-1])
                ref.adapt(D[k], H.array(X[k]))
        for k in range(max(T, idle), M):
            W.append(H.snapshot(ref.w))
            Y.append(ref.predict(H.array(X[k])))
            E.append(H.real("e%d" % (k - idle)))
            D.append(E[-1] + Y[-1])
            ref.adapt(D[k], H.array(X[k]))
        f = make(H, kind, n, p, w)
        args = {}
        if kw or share != 0.5:
            args["ntrain"] = r
        if kw or epochs != 1:
            args["epochs"] = epochs
        y, e, h = f.pretrained_run(H.array(D), H.array(X), **args)
        H.eq(y, Y, "outputs")
        H.eq(e, E, "errors")
        H.eq(h, W, "weight rows")
        H.eq(f.w, ref.w, "final weights")
        z = H.vec("z", n)
        yz = ref.predict(z)
        H.eq(f.predict(z), yz, "prediction afterwards")
        if n == 1:
            d = yz + H.real("ze")
            ref.adapt(d, z)
            f.adapt(d, z)
            H.eq(f.w, ref.w, "weights one sample later")
    return fn


def own(H):
    """a user-defined model on top of the base class"""
    class Mine(H.pa.filters.base_filter.AdaptiveFilter):
        def __init__(self, n, mu, w):
            super().__init__(n, mu, w=w)
            self.count = 0

        def learning_rule(self, e, x):
            self.count += 1
            return self.mu * e * self.count * x

    n, N = 2, 3
    mu, w = H.real("mu"), H.reals("w", n)
    X = H.grid("x", N, n)
    E0 = H.reals("e", N)
    a, b = Mine(n, mu, w), Mine(n, mu, w)
    D, Y, E, W = [], [], [], []
    D.append(E0[0] + a.predict(H.array(X[0])))
    a.run(H.array(D), H.array(X[:1]))
    a.run(H.array(D), H.array(X[:1]))
    for k in (1, 2):
        W.append(H.snapshot(a.w))
        Y.append(a.predict(H.array(X[k])))
        D.append(Y[-1] + E0[k])
        a.adapt(D[k], H.array(X[k]))
    y, e, h = b.pretrained_run(H.array(D), H.array(X), ntrain=0.4, epochs=2)
    H.eq(y, Y, "outputs")
    H.eq(e, E0[1:], "errors")
    H.eq(h, W, "weight rows")
    H.eq(b.w, a.w, "final weights")
    H.eq(b.count, 4, "number of updates")


def schedule(N, epochs, share=None, n=1):
    """which samples a user-defined model is trained with, in which order, and which are returned"""
    def fn(H):
        calls = []

        class Mine(H.pa.filters.base_filter.AdaptiveFilter):
            def learning_rule(self, e, x):
                calls.append((H.snapshot(e), H.snapshot(x)))
                return 0 * x

        w = H.reals("w", n)
        f = Mine(n, 1, w)
        X = [[H.real("x%d_%d" % (k, i)) if k in (0, N // 2, N - 1) else (k * 7 + 3 * i) % 13 - 6 for i in range(n)] for k in range(N)]
        D = [H.real("d%d" % k) if k in (0, N // 2, N - 1) else (k * 5) % 17 - 8 for k in range(N)]
        r = share
        if share is None:
            r = H.real("r")
            H.assume([r >= 0, r <= 1])
        T = int(N * r)
        H.assume([T >= 1, T < N])
        y, e, h = f.pretrained_run(H.array(D, dtype="float64"), H.array(X, dtype="float64"), ntrain=r, epochs=epochs)
        H.eq(H.shape(y), (N - T,), "number of outputs")
        H.eq(H.shape(e), (N - T,), "number of errors")
        H.eq(H.shape(h), (N - T, n), "number of weight rows")
        Y = [H.dot(w, X[k]) for k in range(N)]
        if H.shape(y) == (N - T,):
            H.eq(y, Y[T:], "outputs")
            H.eq(e, [D[k] - Y[k] for k in range(T, N)], "errors")
        order = list(range(T)) * epochs + list(range(T, N))
        H.check(len(calls) == len(order), "number of updates")
        if len(calls) == len(order):
            H.eq([c[0] for c in calls], [D[k] - Y[k] for k in order], "errors handed to the rule")
            H.eq([c[1] for c in calls], [X[k] for k in order], "samples handed to the rule")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in ALL:
        sim = k in ("LMS", "NLMS", "SSLMS", "NSSLMS", "LLNCOSH", "AP", "OCNLMS")
        out.append(case(k + "-n1-N2-E1", mk(k, 1, 2, 1), "n=1, 2 samples, every share in [0,1], 1 epoch", 5, time=300))
        out.append(case(k + "-n1-N2-E2", mk(k, 1, 2, 2, 0.5, False), "n=1, 2 samples, default share, 2 epochs", 5, time=300))
        out.append(case(k + "-n2-N2-E1", mk(k, 2, 2, 1, 0.5, False), "n=2, 2 samples, default share and epoch", 5, time=300))
        if sim:
            out.append(case(k + "-n1-N3-E2", mk(k, 1, 3, 2 if k != "OCNLMS" else 1), "n=1, 3 samples, every share, 2 epochs", 5, time=300))
            out.append(case(k + "-n1-N3-E3", mk(k, 1, 2, 3, 0.5), "n=1, 2 samples, share 0.5, 3 epochs", 5, time=300))
        if k not in ("RLS",):
            fx = {"ifc": 0.5} if k == "AP" else {}
            out.append(case(k + "-idle-a", mk(k, 1, 2, 2, 0.3, idle=98, w0="zeros", fixed=fx), "n=1, 100 samples, the last 2 symbolic, share 0.3, 2 epochs", 8, time=300))
            out.append(case(k + "-idle-b", mk(k, 1, 2, 1, 0.29, idle=98, w0="zeros", fixed=fx), "n=1, 100 samples, the last 2 symbolic, share 0.29 (int(N*r) = 28)", 8, time=300))
    for N in (7, 10, 33, 100, 101, 1000):
        for s in (0.1, 0.2, 0.25, 0.29, 0.3, 1 / 3, 0.4, 0.5, 0.57, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99):
            if 1 <= int(N * s) < N:
                out.append(case("schedule-N%d-%.2f" % (N, s), schedule(N, 1 + (N + int(100 * s)) % 3, s), "%d samples (3 symbolic), share %.3f, user-defined model" % (N, s), N / 100))
    for E in list(range(1, 13)) + [20, 33, 100, 130]:
        out.append(case("schedule-E%d" % E, schedule(9, E, 0.5, 2), "9 samples (3 symbolic), %d epochs, user-defined model" % E, 1))
    for N in (5, 12) + ((40,) if th else ()):
        out.append(case("schedule-share-N%d" % N, schedule(N, 2, None), "%d samples (3 symbolic), every share, user-defined model" % N, 5))
    out.append(case("own-model", own, "user defined model counting its updates, n=2, 3 samples", 3))
    return out
