"""P12: filters selected by name"""
from .common import *

OUTSIDE = "names that are not printable ASCII text; names longer than 18 characters"
NAMES = sorted(PARAMS)


def via(H, f, g, n, label):
    """two filters behave the same"""
    H.check(type(f) is type(g), label + ": class")
    H.eq(f.w, g.w, label + ": weights at the start")
    for k in range(2):
        x = H.vec(label + "x%d_" % k, n)
        y = g.predict(x)
        d = y + H.real(label + "e%d" % k)
        H.eq(f.predict(x), y, label + ": prediction")
        f.adapt(d, x)
        g.adapt(d, x)
        H.eq(f.w, g.w, label + ": weights")


def anycase(kind, entry, n=1, order=None):
    """the name in any letter case: every character is symbolic"""
    def fn(H):
        s = H.string("s", len(kind))
        H.assume(H.string_eq(H.upper(s), kind))
        p = draw_params(H, kind)
        w = H.reals("w", n)
        cls = getattr(H.pa.filters, CLASS[kind])
        if entry == "get":
            H.check(H.pa.filters.get_filter(s) is cls, "class")
            return
        if entry == "filter":
            f = H.pa.filters.AdaptiveFilter(s, n=n, w=w, **p)
            via(H, f, cls(n=n, w=w, **p), n, "filter ")
            return
        X, E = H.grid("x", 2, n), H.reals("e", 2)
        g = cls(n=n, w=w, **p)
        D = []
        g0 = cls(n=n, w=w, **p)
        for k in range(2):
            D.append(g0.predict(H.array(X[k])) + E[k])
            g0.adapt(D[k], H.array(X[k]))
        y, e, h = H.pa.filters.filter_data(H.array(D), H.array(X), s, w=w, **p)
        y2, e2, h2 = g.run(H.array(D), H.array(X))
        H.eq(y, y2, "outputs")
        H.eq(e, e2, "errors")
        H.eq(h, h2, "weight rows")
    return fn


def other(L, entry):
    def fn(H):
        s = H.string("s", L) if L else ""
        for k in NAMES:
            if len(k) == L:
                H.assume(H.not_(H.string_eq(H.upper(s), k)))
        if entry == "get":
            H.raises(ValueError, lambda: H.pa.filters.get_filter(s), "unknown name")
        elif entry == "filter":
            H.raises(ValueError, lambda: H.pa.filters.AdaptiveFilter(s, n=2, mu=H.real("mu")), "unknown name")
        else:
            X, D = H.mat("x", 2, 2), H.vec("d", 2)
            H.raises(ValueError, lambda: H.pa.filters.filter_data(D, X, s, mu=H.real("mu")), "unknown name")
    return fn


def params(kind, keys):
    """parameters handed through (and defaults of the class used for those left out)"""
    def fn(H):
        n = 2
        p = {k: v for k, v in draw_params(H, kind).items() if k in keys}
        if kind == "AP" and "order" in p:
            p["order"] = 3
        if kind in ("LMS", "LMF", "SSLMS", "AP"):
            p["mu"] = H.real("mu")
        cls = getattr(H.pa.filters, CLASS[kind])
        via(H, H.pa.filters.AdaptiveFilter(kind, n=n, w="zeros", **p), cls(n=n, w="zeros", **p), n, "zeros ")
        via(H, H.pa.filters.AdaptiveFilter(model=kind.lower(), n=n, w=H.reals("w", n), **p), cls(n, w=H.reals("w", n), **p), n, "given ")
        via(H, H.pa.filters.get_filter(kind)(n=n, w="zeros", **p), cls(n=n, w="zeros", **p), n, "get ")
        X, D = H.mat("X", 1, 3), H.vec("D", 1)
        y, e, h = H.pa.filters.filter_data(D, X, model=kind, w="zeros", **p)
        y2, e2, h2 = cls(n=3, w="zeros", **p).run(D, X)
        y3, e3, h3 = H.pa.filters.filter_data(D, X, model=kind, n=H.int_("given size", 1, 8), w="zeros", **p)
        for a, b, c, nm in ((y, e, h, ""), (y3, e3, h3, ", a size given too")):
            H.eq(a, y2, "outputs" + nm)
            H.eq(b, e2, "errors" + nm)
            H.eq(c, h2, "weight rows" + nm)
    return fn


def size(kind):
    def fn(H):
        p = draw_params(H, kind)
        H.raises(ValueError, lambda: H.pa.filters.AdaptiveFilter(kind, **p), "missing size")
        H.raises(ValueError, lambda: H.pa.filters.AdaptiveFilter(kind, w=H.reals("w", 2), **p), "missing size")
        f = H.pa.filters.AdaptiveFilter(kind, n=3, **p)
        H.eq(f.w, [H.gauss(i) * H.exact(0.5) for i in range(3)], "default weights")
    return fn


def sizes(kind, ns):
    """the size taken from the data, whatever it is"""
    def fn(H):
        p = draw_params(H, kind)
        cls = getattr(H.pa.filters, CLASS[kind])
        for n in ns:
            X = [[(k * 5 + 3 * i) % 7 - 3 for i in range(n)] for k in range(2)]
            X[0][n - 1] = H.real("x%d" % n)
            D = H.reals("d%d_" % n, 2)
            y, e, h = H.pa.filters.filter_data(H.array(D), H.array(X), kind.lower(), w="zeros", **p)
            y2, e2, h2 = cls(n, w="zeros", **p).run(H.array(D), H.array(X))
            H.check(H.shape(h) == (2, n), "as many weights as features")
            H.eq(y, y2, "outputs, %d features" % n)
            H.eq(e, e2, "errors, %d features" % n)
            if H.shape(h) == (2, n):
                H.eq(h[1], H.leaves(h2[1]), "weight row, %d features" % n)
            H.check(H.shape(H.pa.filters.AdaptiveFilter(kind, n=n, w="zeros", **p).w) == (n,), "as many weights as asked for")
    return fn


def default_model():
    def fn(H):
        mu, w = H.real("mu"), H.reals("w", 2)
        via(H, H.pa.filters.AdaptiveFilter(n=2, mu=mu, w=w), H.pa.filters.FilterLMS(2, mu, w), 2, "default model ")
        H.check(set(H.pa.filters.FILTERS) == set(NAMES), "the documented names")
        X, D = H.mat("X", 2, 1), H.vec("D", 2)
        y, e, h = H.pa.filters.filter_data(D, X, mu=mu, w=w[:1])
        y2, e2, h2 = H.pa.filters.FilterLMS(1, mu, w[:1]).run(D, X)
        H.eq(h, h2, "weight rows")
        H.eq(y, y2, "outputs")
    return fn


def cases(tier):
    out = [case("default", default_model(), "default model")]
    for k in NAMES:
        for e in ("get", "filter", "data"):
            out.append(case("%s-any-case-%s" % (k, e), anycase(k, e), "every letter case of the name", 3, time=300))
        ps = PARAMS[k]
        out.append(case(k + "-all", params(k, ps), "all parameters, n=2", 3, time=300))
        for q in ps:
            if len(ps) > 1:
                out.append(case("%s-only-%s" % (k, q), params(k, [q]), "only %s given" % q, 3, time=300))
        out.append(case(k + "-none", params(k, []), "defaults", 3, time=300))
        out.append(case(k + "-size", size(k), "missing size"))
        ns = (1, 9, 17) if k == "RLS" else (1, 9, 17, 33, 70, 130, 300)
        for n in ns:
            out.append(case("%s-size%d" % (k, n), sizes(k, (n,)), "2 samples of %d features, 1 entry symbolic" % n, 3, time=300))
    for L in range(0, 19 if tier == "quick" else 25):
        for e in ("get", "filter", "data"):
            out.append(case("unknown-%d-%s" % (L, e), other(L, e), "all names of %d printable ASCII characters" % L, 2, time=300))
    return out
