"""P16: refused calls raise ValueError and leave the object untouched"""
from .common import *

OUTSIDE = "other kinds of malformed arguments than those named in the property"


def grid(H, name, n, m):
    return H.array(H.grid(name, n, m))


def refused(kind, n, what, N, M, m, warm, as_list=False, bad=None):
    """what: run | pretrained; M samples of m features with N targets (one of them wrong); twin filter never sees the call"""
    def fn(H):
        p = draw_params(H, kind)
        w = H.reals("w", n)
        f, g = make(H, kind, n, p, w), make(H, kind, n, p, w)
        for k in range(warm):
            x = H.reals("x%d_" % k, n)
            d = g.predict(H.array(x)) + H.real("e%d" % k)
            if warm == 1:
                f.run(H.array([d]), H.array([x]))
                g.run(H.array([d]), H.array([x]))
            else:
                f.adapt(d, H.array(x))
                g.adapt(d, H.array(x))
        X = [list(r) for r in H.grid("bx", M, m)]
        D = list(H.reals("bd", N))
        if bad == "d":
            D[-1] = "a"
        elif bad == "x":
            X[-1][-1] = "a"
        if not as_list:
            X, D = H.array(X), H.array(D)
        if what == "run":
            H.raises(ValueError, lambda: f.run(D, X), "run of %d targets, %d samples, %d features" % (N, M, m))
        else:
            H.raises(ValueError, lambda: f.pretrained_run(D, X, ntrain=0.5, epochs=1), "pretrained run")
        H.eq(f.w, g.w, "weights after the refused call")
        if warm == 1:
            H.eq(f.w_history, g.w_history, "last weight record after the refused call")
        for k in range(1 if kind in ("RLS", "AP") else 2):
            x = H.reals("y%d_" % k, n)
            yg = g.predict(H.array(x))
            d = yg + H.real("ye%d" % k)
            if k == 0:
                H.eq(f.predict(H.array(x)), yg, "prediction")
                f.adapt(d, H.array(x))
                g.adapt(d, H.array(x))
            else:
                y, e, h = f.run(H.array([d]), H.array([x]))
                y2, e2, h2 = g.run(H.array([d]), H.array([x]))
                H.eq(y, y2, "outputs of a later run")
                H.eq(h, h2, "weight rows of a later run")
            H.eq(f.w, g.w, "weights after a later sample")
    return fn


def data(kind):
    """filter_data refuses mismatching series"""
    def fn(H):
        p = draw_params(H, kind)
        H.raises(ValueError, lambda: H.pa.filters.filter_data(H.vec("d", 2), H.mat("x", 3, 2), kind, w="zeros", **p), "filter_data")
        H.raises(ValueError, lambda: H.pa.filters.filter_data(H.vec("d", 3), H.mat("x", 2, 1), kind, w="zeros", **p), "filter_data")
        H.raises(ValueError, lambda: H.pa.filters.filter_data(H.vec("d", 2), H.mat("x", 2, 2), kind, w=H.reals("w", 3), **p), "filter_data, weights of another size")
    return fn


def net(layers, n, outs, act, what, N, M, m, o, warm):
    """N inputs of m features; M targets with o columns (0: one dimensional)"""
    def fn(H):
        C = H.pa.ann.NetworkMLP
        mu = H.real("mu")
        f = C(layers, n, outputs=outs, activation=act, mu=mu)
        g = C(layers, n, outputs=outs, activation=act, mu=mu)

        def weights(t):
            return [t.w] + [l.w for l in t.layers]
        g.w = H.array(H.snapshot(f.w))
        for a, b in zip(g.layers, f.layers):
            a.w = H.array(H.snapshot(b.w))

        def target(name):
            return H.real(name) if outs == 1 else H.vec(name, outs)
        if warm:
            x = H.reals("x", n)
            for t in (f, g):
                t.predict(H.array(x))
                t.update(target("d"))
        X = H.array(H.grid("bx", N, m))
        D = H.array(H.grid("bd", M, o)) if o else H.vec("bd", M)
        if what == "train":
            H.raises(ValueError, lambda: f.train(X, D, epochs=2), "training")
            H.raises(ValueError, lambda: f.train(X, D, epochs=1, shuffle=True), "training")
        else:
            H.raises(ValueError, lambda: f.test(X, D), "testing")
        for a, b in zip(weights(f), weights(g)):
            H.eq(a, b, "weights after the refused call")
        if warm:
            for t in (f, g):                   # the last prediction is still the one to update from
                t.update(target("d2"))
            for a, b in zip(weights(f), weights(g)):
                H.eq(a, b, "weights after the next update")
        q = H.reals("q", n)
        H.eq(f.predict(H.array(q)), g.predict(H.array(q)), "output after the refused call")
    return fn


def measures(la, lb, how):
    def fn(H):
        a, b = H.vec("a", la), H.vec("b", lb)
        if how == "list":
            a, b = H.reals("a", la), H.reals("b", lb)
        elif how == "mixed":
            b = H.reals("b", lb)
        m = H.pa.misc
        for name in ("MSE", "MAE", "RMSE", "logSE"):
            H.raises(ValueError, lambda: getattr(m, name)(a, b), name)
        for name in ("MSE", "MAE", "RMSE"):
            H.raises(ValueError, lambda: m.get_mean_error(a, b, function=name), "get_mean_error " + name)
    return fn


def names(what, L):
    """every other printable name of L characters"""
    def fn(H):
        s = H.string("s", L) if L else ""
        known = ("max", "sum") if what == "elbnd" else ("MSE", "MAE", "RMSE")
        for k in known:
            if len(k) == L:
                H.assume(H.not_(H.string_eq(s, k)))
        if what == "elbnd":
            H.raises(ValueError, lambda: H.pa.detection.ELBND(H.mat("w", 2, 2), H.vec("e", 2), s), "unknown function")
            H.raises(ValueError, lambda: H.pa.detection.ELBND(H.mat("w", 2, 2), H.vec("e", 2), function=s), "unknown function")
        else:
            H.raises(ValueError, lambda: H.pa.misc.get_mean_error(H.vec("a", 2), H.vec("b", 2), s), "unknown function")
            H.raises(ValueError, lambda: H.pa.misc.get_mean_error(H.vec("a", 2), function=s), "unknown function")
    return fn


def history(what):
    def fn(H):
        a = H.vec("a", 4)
        f = H.pa.input_from_history
        bias = bool(H.choice("bias", 2))
        if what == "nonpositive":
            n = H.int_("n", None, 0)
            H.raises(ValueError, lambda: f(a, n, bias=bias), "history length <= 0")
        elif what == "real":
            H.raises(ValueError, lambda: f(a, H.asfloat(H.real("n")), bias=bias), "history length not an integer")
        else:
            bad = [2.0, 1.5, "2", None, [2], (1,), 0, -1, -5][H.choice("bad", 9)]
            H.raises(ValueError, lambda: f(a, bad, bias), "history length %r" % (bad,))
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in ALL:
        for nm, a in (("longer-d", (2, "run", 3, 2, 2)), ("shorter-d", (2, "run", 1, 2, 2)), ("less-features", (2, "run", 2, 2, 1)),
                      ("more-features", (2, "run", 2, 2, 3)), ("both", (1, "run", 2, 1, 2)), ("one-feature", (3, "run", 1, 1, 1)),
                      ("pretrained-d", (1, "pretrained", 3, 2, 1)), ("pretrained-features", (2, "pretrained", 2, 2, 1)),
                      ("pretrained-features-more", (1, "pretrained", 2, 2, 2))):
            if nm == "pretrained-d":
                continue
            warms = (0, 1) if k in ("RLS", "AP") else (0, 1, 2)
            for w in warms:
                if k in ("RLS", "AP", "VSLMS_BENVENISTE") and w and a[0] > 2 and not th:
                    continue
                out.append(case("%s-%s-%d" % (k, nm, w), refused(k, *a, warm=w, as_list=(nm in ("both", "less-features"))),
                                "n=%d, %s of %d targets, %d samples with %d features after %d samples" % (a + (w,)), 3 + w, time=300))
        for bad in ("d", "x"):
            for w in (0, 1):
                out.append(case("%s-text-%s-%d" % (k, bad, w), refused(k, 1, "run", 2, 2, 1, w, True, bad), "n=1, run of 2 samples with a text among %s after %d samples" % (bad, w), 3 + w, time=300))
        out.append(case(k + "-data", data(k), "filter_data, 2-3 samples", 2))
    for layers, n, outs, act in (([1], 1, 1, "sigmoid"), ([2], 2, 2, "tanh"), ([1, 2], 2, 1, "sigmoid")):
        o = 0 if outs == 1 else outs
        for what in ("train", "test"):
            for nm, b in (("longer-d", (1, 2, n, o)), ("shorter-d", (2, 1, n, o)), ("features", (1, 1, n + 1, o)),
                          ("features-2", (2, 2, n - 1, o)), ("columns", (1, 1, n, 3)), ("columns-2", (2, 2, n, 1))):
                if b[2] == 0:
                    continue
                for warm in (False, True):
                    out.append(case("MLP-%s-%d-%s-%s-%d" % ("_".join(map(str, layers)), outs, what, nm, warm),
                                    net(layers, n, outs, act, what, *b, warm=warm), "layers %s, %d inputs, %d outputs" % (layers, n, outs), 4, time=300))
    for la, lb in ((2, 1), (1, 2), (3, 2), (2, 5), (1, 4)):
        for how in ("array", "list", "mixed"):
            out.append(case("measures-%d-%d-%s" % (la, lb, how), measures(la, lb, how), "series of %d and %d values" % (la, lb)))
    for what in ("elbnd", "error"):
        for L in range(0, 9 if not th else 16):
            out.append(case("%s-name-%d" % (what, L), names(what, L), "all other names of %d printable ASCII characters" % L, 2))
    for w in ("nonpositive", "real", "kinds"):
        out.append(case("history-" + w, history(w), "all such lengths, 4 values", 2))
    return out
