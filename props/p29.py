"""P29: results do not depend on how the numbers are represented"""
from .common import *
from .mlp import build, draw_weights, set_weights, weights

OUTSIDE = "64-bit integer overflow; single precision; object arrays and masked arrays"

SMALL = ("int8", "int16", "uint8", "int32")


def lists(x):
    return [lists(v) for v in x] if isinstance(x, list) else x


def tuples(x):
    return tuple(tuples(v) for v in x) if isinstance(x, list) else x


def rep(H, how, x):
    """x: nested list of scalars"""
    two = isinstance(x[0], list)
    if how == "list":
        return lists(x)
    if how == "tuple":
        return tuples(x)
    if how == "rows":                                   # list of arrays
        return [H.array(r) for r in x] if two else H.array(x)
    if how == "int":
        return H.array(x, dtype="int64")
    if how == "fortran":
        return H.fortran(H.array(x))
    if how == "transposed":
        return H.array([list(c) for c in zip(*x)]).T if two else H.array(x)
    if how == "strided":
        junk = 77
        if two:
            big = [[v for a in r for v in (a, junk)] for r in x]
            return H.array([v for r in big for v in (r, [junk] * len(r))])[::2, ::2]
        return H.array([v for a in x for v in (a, junk)])[::2]
    if how == "reversed":
        return H.array([r[::-1] for r in x[::-1]])[::-1, ::-1] if two else H.array(x[::-1])[::-1]
    if how == "column":                                 # a column of a matrix
        return H.array(x) if two else H.array([[5, a, 5] for a in x])[:, 1]
    raise KeyError(how)


REPS = ("list", "tuple", "rows", "int", "fortran", "transposed", "strided", "reversed", "column")


def values(H, how, name, n, m=None):
    """values every representation can hold"""
    if m is None:
        return H.ints(name, n) if how == "int" else H.reals(name, n)
    return [H.ints("%s%d_" % (name, i), m) for i in range(n)] if how == "int" else H.grid(name, n, m)


def floats(H, xs):
    return [floats(H, v) if isinstance(v, list) else H.asfloat(v) for v in xs]


def batch(kind, n, N, how, who="both", pre=False):
    """run with x, d (or one of them) in another representation"""
    def fn(H):
        p = draw_params(H, kind)
        w = values(H, how, "w", n)
        f, g = make(H, kind, n, p, H.array(floats(H, w))), make(H, kind, n, p, rep(H, how, w))
        H.is_float(g.w, "weights")
        H.eq(g.w, f.w, "initial weights")
        x, d = values(H, how, "x", N, n), values(H, how, "d", N)
        X, D = H.array(floats(H, x)), H.array(floats(H, d))
        A, B = (rep(H, how, x) if who != "d" else X), (rep(H, how, d) if who != "x" else D)
        if pre:
            r, q = f.pretrained_run(D, X, ntrain=0.5, epochs=1), g.pretrained_run(B, A, ntrain=0.5, epochs=1)
        else:
            r, q = f.run(D, X), g.run(B, A)
        for a, b, nm in zip(r, q, ("outputs", "errors", "weight record")):
            H.eq(b, a, nm)
            H.is_float(b, nm)
        H.eq(g.w, f.w, "final weights")
    return fn


def small(kind, n, N, dt, who, online=False):
    """samples and targets in a small integer type"""
    def fn(H):
        p = draw_params(H, kind)
        w = H.reals("w", n)
        f, g = make(H, kind, n, p, w), make(H, kind, n, p, w)
        A = H.narrow("x", (N, n), dt) if who != "d" else H.mat("x", N, n)
        B = H.narrow("d", (N,), dt) if who != "x" else H.vec("d", N)
        X, D = A.astype("float64"), B.astype("float64")
        if online:
            for k in range(N):
                H.eq(g.predict(A[k]), f.predict(X[k]), "prediction %d" % k)
                f.adapt(D[k], X[k])
                g.adapt(B[k], A[k])
        else:
            for a, b, nm in zip(f.run(D, X), g.run(B, A), ("outputs", "errors", "weight record")):
                H.eq(b, a, nm)
                H.is_float(b, nm)
        H.eq(g.w, f.w, "final weights")
    return fn


def online(kind, n, how):
    """single samples in another representation"""
    def fn(H):
        p = draw_params(H, kind)
        w = values(H, how, "w", n)
        f, g = make(H, kind, n, p, H.array(floats(H, w))), make(H, kind, n, p, rep(H, how, w))
        for k in range(2 if kind not in ("RLS", "AP") else 1):
            x = values(H, how, "x%d_" % k, n)
            d = (H.int_ if how == "int" else H.real)("d%d" % k)
            X, A = H.array(floats(H, x)), rep(H, how, x)
            H.eq(g.predict(A), f.predict(X), "prediction %d" % k)
            f.adapt(H.asfloat(d), X)
            g.adapt(d, A)
        H.is_float(g.w, "weights")
        H.eq(g.w, f.w, "final weights")
    return fn


def intparams(kind, n):
    """integer parameters mean the same as floating point ones"""
    def fn(H):
        p, q = {}, {}
        for k, v in draw_params(H, kind).items():
            if k in ("order", "mem"):
                p[k] = q[k] = v
            elif k == "alpha":
                p[k], q[k] = 2, 2.0
            else:
                v = H.int_(k + "i", 1)
                p[k], q[k] = v, H.asfloat(v)
        w = H.ints("w", n)
        f, g = make(H, kind, n, q, H.array(floats(H, w))), make(H, kind, n, p, H.array(w, dtype="int64"))
        x, d = values(H, "int", "x", 2, n), values(H, "int", "d", 2)
        for a, b, nm in zip(f.run(H.array(floats(H, d)), H.array(floats(H, x))), g.run(d, x), ("outputs", "errors", "weight record")):
            H.eq(b, a, nm)
            H.is_float(b, nm)
        H.eq(g.w, f.w, "final weights")
    return fn


def series(what, how, N):
    """preprocessing of one series, error measures"""
    def fn(H):
        P, M = H.pa.preprocess, H.pa.misc
        if how in SMALL:
            A, B = H.narrow("a", (N,), how), H.narrow("b", (N,), how)
            X, Y = A.astype("float64"), B.astype("float64")
        else:
            a, b = values(H, how, "a", N), values(H, how, "b", N)
            A, B, X, Y = rep(H, how, a), rep(H, how, b), H.array(floats(H, a)), H.array(floats(H, b))
        if what == "history":
            for n in (1, 2, N):
                for bias in (False, True):
                    u, v = P.input_from_history(X, n, bias=bias), P.input_from_history(A, n, bias=bias)
                    H.eq(v, u, "history matrix")
                    H.is_float(v, "history matrix")
        elif what == "standardize":
            i, s = H.int_("offset"), H.int_("scale", 1)
            pairs = [(P.standardize(X), P.standardize(A))] if how not in SMALL else []
            pairs += [(P.standardize(X, offset=H.asfloat(i), scale=H.asfloat(s)), P.standardize(A, offset=i, scale=s)),
                      (P.standardize_back(X, H.asfloat(i), H.asfloat(s)), P.standardize_back(A, i, s))]
            for u, v in pairs:
                H.eq(v, u, "standardised series")
                H.is_float(v, "standardised series")
        else:
            f = getattr(M, what)
            pairs = [(f(X, Y), f(A, B)), (f(X), f(A)), (f(X, Y), f(A, Y)), (f(X, Y), f(X, B))]
            if what in ("MSE", "MAE", "RMSE"):
                pairs += [(f(X, Y), M.get_mean_error(A, B, function=what))]
            for u, v in pairs:
                H.eq(v, u, what)
                H.is_float(v, what)
    return fn


def history(how, N, n, m, order, alpha, what="le"):
    def fn(H):
        if how in SMALL:
            A = H.narrow("w", (N, n), how)
            X = A.astype("float64")
        else:
            a = values(H, how, "w", N, n)
            A, X = rep(H, how, a), H.array(floats(H, a))
        D = H.pa.detection
        if what == "elbnd":
            ev = values(H, how, "e", N)
            E, Ef = (rep(H, how, ev), H.array(floats(H, ev)))
            for fun in ("max", "sum"):
                u, v = D.ELBND(X, Ef, fun), D.ELBND(A, E, fun)
                H.eq(v, u, "ELBND")
                H.is_float(v, "ELBND")
            return
        if alpha:
            al = [H.int_("alpha%d" % i, 1) for i in range(alpha)]
            u = D.learning_entropy(X, m=m, order=order, alpha=[H.asfloat(v) for v in al])
            vs = [D.learning_entropy(A, m=m, order=order, alpha=z) for z in (al, tuple(al), H.array(al, dtype="int64"), H.array(floats(H, al)))]
        else:
            u = D.learning_entropy(X, m=m, order=order)
            vs = [D.learning_entropy(A, m=m, order=order)]
        for v in vs:
            H.eq(v, u, "learning entropy")
            H.is_float(v, "learning entropy")
    return fn


def net(layers, n, outs, act, how):
    """network training, testing and use (arrays)"""
    def fn(H):
        mu = H.real("mu")
        f, g = build(H, layers, n, outs, act, mu), build(H, layers, n, outs, act, mu)
        ws, out = draw_weights(H, layers, n, outs)
        for t in (f, g):
            set_weights(H, t, ws, out, outs)
        N = 2
        if how in SMALL:
            A = H.narrow("x", (N, n), how)
            B = H.narrow("d", (N, outs) if outs > 1 else (N,), how)
            X, D = A.astype("float64"), B.astype("float64")
        else:
            x = values(H, how, "x", N, n)
            d = values(H, how, "d", N, outs) if outs > 1 else values(H, how, "d", N)
            A, B, X, D = rep(H, how, x), rep(H, how, d), H.array(floats(H, x)), H.array(floats(H, d))
        H.eq(g.run(A), f.run(X), "run")
        H.eq(g.test(A, B), f.test(X, D), "test")
        for a, b, nm in zip(f.train(X, D, epochs=1), g.train(A, B, epochs=1), ("errors", "mean squared errors")):
            H.eq(b, a, nm)
            H.is_float(b, nm)
        (a, b), (c, q) = weights(H, f, outs), weights(H, g, outs)
        H.eq(q, b, "output weights")
        for l in range(len(layers)):
            H.eq(c[l], a[l], "weights of layer %d" % l)
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in ALL:
        n = 1 if k in ("RLS", "AP", "VSLMS_BENVENISTE") and not th else 2
        N = 2
        for how in REPS:
            nn = max(n, 2) if how in ("fortran", "transposed", "strided", "reversed") and k not in ("RLS", "AP", "VSLMS_BENVENISTE") else n
            out.append(case("%s-%s" % (k, how), batch(k, nn, N, how), "n=%d, %d samples as %s" % (nn, N, how), 3, time=200))
            if how != "column":
                out.append(case("%s-%s-online" % (k, how), online(k, n, how), "n=%d, single samples as %s" % (n, how), 2, time=200))
        for who in ("x", "d"):
            out.append(case("%s-int-%s" % (k, who), batch(k, n, N, "int", who), "n=%d, %d samples, only %s as integers" % (n, N, who), 3, time=200))
        out.append(case("%s-int-pretrained" % k, batch(k, n, 2, "int", pre=True), "n=%d, pretrained run of 2 samples as integers" % n, 3, time=200))
        out.append(case("%s-intparams" % k, intparams(k, n), "n=%d, 2 samples, integer parameters" % n, 3, time=200))
        for dt in SMALL:
            out.append(case("%s-%s" % (k, dt), small(k, n, N, dt, "both"), "n=%d, %d samples of type %s" % (n, N, dt), 3, time=200))
            out.append(case("%s-%s-online" % (k, dt), small(k, n, N if k != "AP" else 1, dt, "both", True), "n=%d, single samples of type %s" % (n, dt), 3, time=200))
        out.append(case("%s-uint8-d" % k, small(k, n, N, "uint8", "d"), "n=%d, %d targets of type uint8" % (n, N), 3, time=200))
        out.append(case("%s-int16-x" % k, small(k, n, N, "int16", "x"), "n=%d, %d samples of type int16" % (n, N), 3, time=200))
    for what in ("history", "standardize", "MSE", "MAE", "RMSE", "logSE"):
        for how in REPS + SMALL:
            if how in ("rows", "fortran", "transposed"):
                continue
            for N in ((1, 3) if what not in ("standardize", "history") else (3,)):
                out.append(case("%s-%s-%d" % (what, how, N), series(what, how, N), "series of %d values as %s" % (N, how), 2))
    for how in REPS + SMALL:
        for m, order, alpha in ((2, 1, 0), (1, 2, 0), (2, 1, 2), (1, 2, 1)):
            out.append(case("le-%s-%d-%d-%d" % (how, m, order, alpha), history(how, 4, 2, m, order, alpha),
                            "learning entropy, 4 weight vectors of 2 as %s, window %d, order %d, %d sensitivities" % (how, m, order, alpha), 3, time=200))
        if how in ("int", "fortran", "transposed", "strided", "reversed"):
            out.append(case("elbnd-%s" % how, history(how, 3, 2, 0, 0, 0, "elbnd"), "ELBND, 3 weight vectors of 2 as %s" % how, 2))
    for how in ("int", "fortran", "transposed", "strided", "reversed") + SMALL:
        for L, n, o, act in (([2], 2, 1, "sigmoid"), ([1], 2, 2, "tanh"), ([1, 1], 2, 1, "tanh")):
            out.append(case("MLP-%s-%s-%d-%s" % (how, "_".join(map(str, L)), o, act), net(L, n, o, act, how), "layers %s, %d outputs, 2 samples as %s" % (L, o, how), 3, time=200))
    return out
