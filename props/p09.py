"""P09: caller-owned data is neither modified nor kept; returned arrays stay as they were"""
from .common import *

OUTSIDE = "sizes beyond the bounds"


class Guard:
    """arrays handed in, with the values they must keep"""

    def __init__(self, H):
        self.H, self.kept = H, []

    def __call__(self, xs, dtype=None):
        a = self.H.array(xs, dtype=dtype)
        self.kept.append((a, self.H.snapshot(a)))
        return a

    def own(self, a):
        """a returned array: later calls must not alter it"""
        self.kept.append((a, self.H.snapshot(a)))
        return a

    def verify(self, label):
        for i, (a, v) in enumerate(self.kept):
            self.H.eq(a, v, "%s: array %d" % (label, i))


def filt(kind, n, how, fixed=None):
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        w = H.reals("w", n)
        G = Guard(H)
        buf_w = H.array(w)
        a = make(H, kind, n, p, buf_w)               # gets buffers which are overwritten
        b = make(H, kind, n, p, list(w))             # reference: fresh arrays every time
        H.eq(buf_w, w, "initial weights array after the construction")
        H.fill(buf_w, H.reals("other", n))
        H.eq(a.w, w, "weights after the caller overwrote the initial array")
        buf = H.array([0] * n)
        N = 3 if n == 1 else 2
        cnt = 0
        for k in range(N):
            x = H.reals("x%d_" % k, n)
            H.fill(buf, x)
            d = H.real("e%d" % k) + b.predict(H.array(x))
            if how == "run" and k != 1:
                b.run(H.array([d]), G([x]))
                bx, bd = H.array([x]), H.array([d])
                y, e, h = a.run(bd, bx)
                G.own(y), G.own(e), G.own(h)
                H.eq(bx, [x], "samples after the run")
                H.eq(bd, [d], "targets after the run")
                H.fill(bx, [H.reals("ox%d_" % k, n)])
                H.fill(bd, [H.real("od%d" % k)])
            else:
                b.adapt(d, G(x))
                a.predict(buf)
                H.eq(buf, x, "sample after predict")
                a.adapt(d, buf)
                H.eq(buf, x, "sample after adapt")
                H.fill(buf, H.reals("junk%d_" % k, n))
            H.eq(a.w, b.w, "weights after sample %d" % k)
        q = G(H.reals("q", n))
        H.eq(a.predict(q), b.predict(q), "prediction at the end")
        G.verify("at the end")
        H.eq(buf_w, H.reals("other", n), "the caller's weights array at the end")
    return fn


def buffers(kind, n):
    """larger samples in one buffer: predict, adapt, and the rule itself, against fresh arrays"""
    def fn(H):
        p = draw_params(H, kind)
        w = H.array([0] * n)
        a, b, c, g = [make(H, kind, n, p, w) for _ in range(4)]
        buf = H.array([0] * n)
        for k in range(3 if kind not in ("RLS", "AP", "OCNLMS") else 2):
            x = [(k * 5 + 3 * i) % 7 - 3 for i in range(n)]
            x[n - 1] = 1 + k
            d = H.real("d%d" % k)
            H.fill(buf, x)
            a.predict(buf)
            a.adapt(d, buf)
            H.eq(buf, x, "sample")
            b.adapt(d, H.array(x))
            H.eq(a.w, b.w, "weights after sample %d" % k)
            if kind != "AP":
                r, q = c.learning_rule(d, buf), g.learning_rule(d, H.array(x))
                H.eq(r, q, "increment of sample %d" % k)
            H.eq(buf, x, "sample after the rule")
            H.fill(buf, [k + 9] * n)
        H.eq(w, [0] * n, "the caller's weights")
    return fn


def pretrained(kind):
    def fn(H):
        G = Guard(H)
        p = draw_params(H, kind)
        f = make(H, kind, 1, p, G(H.reals("w", 1)))
        X, D = G(H.grid("x", 2, 1)), G(H.reals("d", 2))
        y, e, h = f.pretrained_run(D, X, ntrain=0.5, epochs=1)
        G.own(y), G.own(e), G.own(h)
        f.adapt(H.real("d"), G(H.reals("z", 1)))
        G.verify("after a pretrained run")
        g = H.pa.filters.filter_data(D, X, kind, w=G(H.reals("u", 1)), **p)
        G.verify("after filter_data")
    return fn


def functions(which):
    def fn(H):
        pa = H.pa
        G = Guard(H)
        if which == "history":
            a = G(H.reals("a", 5))
            G.own(pa.input_from_history(a, 2))
            x = pa.input_from_history(a, 3, bias=True)
            r = pa.input_from_history(a, 1)
            H.fill(r, [[v] for v in H.reals("z", 5)])
            H.fill(x, [[v] * 4 for v in H.reals("y", 3)])
        elif which == "standardize":
            a = G(H.reals("a", 3))
            s = H.positive("s")
            G.own(pa.standardize(a))
            r = pa.standardize(a, offset=H.real("o"), scale=s)
            G.own(pa.standardize_back(a, offset=H.real("o"), scale=s))
            H.fill(r, H.reals("z", 3))
            r = pa.standardize(a, offset=0, scale=1)
            H.fill(r, H.reals("z", 3))
            r = pa.standardize_back(a, offset=0, scale=1)
            H.fill(r, H.reals("z", 3))
            m = G(H.grid("m", 2, 2))
            pa.standardize(m, offset=1., scale=2.)
        elif which == "errors":
            a, b = G(H.reals("a", 3)), G(H.reals("b", 3))
            H.assume([v > 0 for v in H.reals("a", 3)])
            H.assume([v < 0 for v in H.reals("b", 3)])
            m = pa.misc
            for f in (m.MSE, m.MAE, m.RMSE, m.logSE):
                f(a), f(a, b)
            for n in ("MSE", "MAE", "RMSE"):
                m.get_mean_error(a, b, n)
                m.get_mean_error(a, function=n)
        elif which == "elbnd":
            w, e = G(H.grid("w", 3, 2)), G(H.reals("e", 3))
            G.own(pa.detection.ELBND(w, e, "max"))
            G.own(pa.detection.ELBND(w, e, "sum"))
        elif which == "le":
            w, a = G(H.grid("w", 5, 2)), G(H.reals("a", 2))
            G.own(pa.detection.learning_entropy(w, m=2, order=1))
            G.own(pa.detection.learning_entropy(w, m=3, order=2))
            r = pa.detection.learning_entropy(w, m=1, order=1)
            H.fill(r, [[0, 0]] * 5)
        elif which == "le-alpha":
            w, a = G(H.grid("w", 4, 1)), G(H.reals("a", 2))
            G.own(pa.detection.learning_entropy(w, m=2, order=1, alpha=a))
        elif which == "ese":
            w = G(H.grid("w", 5, 1))
            G.own(pa.detection.ESE(w, window=3, pot_method="sqrt"))
        elif which == "pca":
            x = G(H.grid("x", 3, 2))
            G.own(pa.preprocess.PCA_components(x))
            G.own(pa.preprocess.PCA(x, 1))
        elif which == "lda":
            Sw, Sb = scatters(H, H.grid("x", 4, 2), [[0, 2], [1, 3]])
            D = det(H, Sw)
            H.assume(H.or_(D > H.exact(1e-3), D < -H.exact(1e-3)))
            x, l = G(H.grid("x", 4, 2)), G([1, 0, 1, 0], dtype="int64")
            G.own(pa.preprocess.LDA_discriminants(x, l))
            G.own(pa.preprocess.LDA(x, l, 1))
        G.verify("arguments and earlier results of " + which)
    return fn


def mlp(outs, shuffle):
    def fn(H):
        G = Guard(H)
        f = H.pa.ann.NetworkMLP([1], 1, outputs=outs, activation="tanh", mu=H.real("mu"))
        g = H.pa.ann.NetworkMLP([1], 1, outputs=outs, activation="tanh", mu=H.real("mu"))
        g.w = H.array(H.snapshot(f.w))
        g.layers[0].w = H.array(H.snapshot(f.layers[0].w))

        def dd(name, m):
            return H.reals(name, m) if outs == 1 else H.grid(name, m, outs)
        x, d = H.grid("x", 2, 1), dd("d", 2)
        if shuffle:
            X, D = G(x), G(d)
            e, m = f.train(X, D, epochs=1, shuffle=True)
            G.own(e), G.own(m)
            G.verify("after training with shuffling")
            return
        x, d = x[:1], d[:1]
        X, D = H.array(x), H.array(d)
        e, m = f.train(X, D, epochs=1)
        e2, m2 = g.train(G(x), G(d), epochs=1)
        G.own(e), G.own(m)
        H.eq(X, x, "inputs after training")
        H.eq(D, d, "targets after training")
        H.fill(X, H.grid("jx", 1, 1))
        z = H.reals("z", 1)
        buf = H.array(z)
        y = G.own(f.predict(buf)) if outs > 1 else f.predict(buf)
        H.eq(buf, z, "input after predict")
        H.fill(buf, H.reals("jz", 1))
        u = H.reals("u", outs) if outs > 1 else H.real("u")
        U = H.array(u) if outs > 1 else u
        g.predict(H.array(z))
        r = f.update(U)
        if outs > 1:
            H.eq(U, u, "target after update")
            G.own(r)
        H.eq(r, g.update(H.array(u) if outs > 1 else u), "error of the update")
        H.eq(f.w, g.w, "output weights: the input buffer was overwritten between predict and update")
        H.eq(f.layers[0].w, g.layers[0].w, "hidden weights")
        G.own(f.run(G(H.grid("r", 2, 1))))
        G.own(f.test(G(H.grid("t", 1, 1)), G(dd("td", 1))))
        f.predict(H.vec("q", 1))
        G.verify("arguments and earlier results")
    return fn


def cases(tier):
    out = []
    for k in ALL:
        out.append(case(k + "-adapt", filt(k, 2, "adapt"), "n=2, 2 single samples in one reused buffer", 5, time=300))
        out.append(case(k + "-run", filt(k, 2, "run"), "n=2, run, single sample", 5, time=300))
        out.append(case(k + "-n1", filt(k, 1, "adapt"), "n=1, 3 single samples in one reused buffer", 5, time=300))
        out.append(case(k + "-n1-run", filt(k, 1, "run"), "n=1, run, single, run", 5, time=300))
        out.append(case(k + "-pretrained", pretrained(k), "n=1, pretrained run and filter_data", 5, time=300))
        for n in (9, 40) if k not in ("RLS", "AP") else (9,):
            out.append(case("%s-buffer%d" % (k, n), buffers(k, n), "n=%d, fixed samples in one reused buffer, symbolic targets" % n, 5, time=300))
    for w in ("history", "standardize", "errors", "elbnd", "le", "le-alpha", "ese", "pca", "lda"):
        out.append(case(w, functions(w), "small symbolic arrays", 10, time=300))
    for o in (1, 2):
        for s in (False, True):
            out.append(case("MLP-%d%s" % (o, "-shuffle" if s else ""), mlp(o, s), "one hidden node, %d outputs" % o, 10, time=300))
    return out
