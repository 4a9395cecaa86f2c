"""P08: predictions are pure"""
from .common import *

OUTSIDE = "more samples or features than the bounds; for a network, predictions asked for between predict and its update"


def filt(kind, n, N, npred, how="adapt", idle=0, fixed=None, deep=False):
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        w = H.reals("w", n) if not idle else "zeros"
        a, b = make(H, kind, n, p, w), make(H, kind, n, p, w)
        cnt = [0]

        def ask():
            for _ in range(npred):
                q = H.reals("q%d_" % cnt[0], n)
                cnt[0] += 1
                wb = H.snapshot(b.w)
                arg = H.array(q)
                y = b.predict(arg)
                H.eq(b.w, wb, "weights after a prediction")
                if kind != "OCNLMS":
                    H.eq(y, H.dot(wb, q), "prediction is the inner product")
                H.eq(b.predict(arg), y, "asking again")
        for k in range(idle):
            x = H.array([(k * 5 + 3 * i) % 7 - 3 for i in range(n)])
            a.adapt(0, x)
            b.adapt(0, x)
            if k % 9 == 0:
                ask()
        for k in range(N):
            x, e = H.reals("x%d_" % k, n), H.real("e%d" % k)
            ask()
            d = e + a.predict(H.array(x))
            if how == "adapt" or (how == "mixed" and k % 2):
                a.adapt(d, H.array(x))
                b.adapt(d, H.array(x))
            else:
                ya, ea, ha = a.run(H.array([d, 1]), H.array([x, [1] * n]))
                yb, eb, hb = b.run(H.array([d, 1]), H.array([x, [1] * n]))
                H.eq(yb, ya, "outputs")
                H.eq(eb, ea, "errors")
                H.eq(hb, ha, "weight rows")
            H.eq(b.w, a.w, "weights after sample %d" % k)
        ask()
        x = H.vec("z", n)
        H.eq(b.predict(x), a.predict(x), "prediction at the end")
    return fn


def many(kind, n, count, fixed=None):
    """a great number of predictions"""
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        w = H.reals("w", n)
        a, b = make(H, kind, n, p, w), make(H, kind, n, p, w)
        x0, e0 = H.reals("u", n), H.real("g")
        d0 = e0 + a.predict(H.array(x0))
        for f in (a, b):
            f.adapt(d0, H.array(x0))
        w1 = H.snapshot(b.w)
        for k in range(count):
            b.predict(H.array([(k * 5 + 3 * i) % 7 - 3 for i in range(n)], dtype="float64"))
        H.eq(b.w, w1, "weights after %d predictions" % count)
        x, e = H.reals("x", n), H.real("e")
        d = e + a.predict(H.array(x))
        H.eq(b.predict(H.array(x)), d - e, "prediction after %d predictions" % count)
        a.adapt(d, H.array(x))
        b.adapt(d, H.array(x))
        H.eq(b.w, a.w, "weights after the next sample")
        y, e2, h = a.run(H.array([d]), H.array([x]))
        y2, e3, h2 = b.run(H.array([d]), H.array([x]))
        H.eq(y2, y, "output of a run")
        H.eq(b.w, a.w, "weights after a run")
    return fn


def nonfinite(kind, n, bad):
    """predictions of samples with missing or infinite values"""
    def fn(H):
        p = draw_params(H, kind)
        w = H.reals("w", n)
        a, b = make(H, kind, n, p, w), make(H, kind, n, p, w)
        for k in range(2):
            x, e = H.reals("x%d_" % k, n), H.real("e%d" % k)
            wb = H.snapshot(b.w)
            for i in range(n) if bad == "nan" else [k]:
                q = [1.] * n
                q[i] = float(bad)
                b.predict(H.array(q))
                H.eq(b.w, wb, "weights after predicting a sample with %s" % bad)
            d = e + a.predict(H.array(x))
            a.adapt(d, H.array(x))
            b.adapt(d, H.array(x))
            H.eq(b.w, a.w, "weights after sample %d" % k)
        z = H.vec("z", n)
        H.eq(b.predict(z), a.predict(z), "prediction at the end")
    return fn


def net_nonfinite(outs, act, bad):
    def fn(H):
        f = H.pa.ann.NetworkMLP([2], 2, outputs=outs, activation=act, mu=H.real("mu"))
        w0, v0 = H.snapshot(f.w), H.snapshot(f.layers[0].w)
        z = H.vec("z", 2)
        y = f.predict(z)
        y = H.snapshot(y) if outs > 1 else y
        for q in ([float(bad), 1.], [1., float(bad)]):
            f.predict(H.array(q))
            f.run(H.array([q, [1., 1.]]))
            f.test(H.array([q]), H.vec("t", 1) if outs == 1 else H.mat("t", 1, outs))
            H.eq(f.w, w0, "output weights after %s" % bad)
            H.eq(f.layers[0].w, v0, "hidden weights after %s" % bad)
        H.eq(f.predict(z), y, "prediction afterwards")
    return fn


def net(layers, n, outs, act):
    def fn(H):
        a = H.pa.ann.NetworkMLP(layers, n, outputs=outs, activation=act, mu=H.real("mu"))
        b = H.pa.ann.NetworkMLP(layers, n, outputs=outs, activation=act, mu=H.real("mu"))
        b.w = H.array(H.snapshot(a.w))
        for la, lb in zip(a.layers, b.layers):
            lb.w = H.array(H.snapshot(la.w))

        def ws(t):
            return [H.snapshot(t.w)] + [H.snapshot(l.w) for l in t.layers]

        def dd(name, m):
            return H.vec(name, m) if outs == 1 else H.mat(name, m, outs)

        def ask(tag):
            w0 = ws(b)
            b.predict(H.vec("q" + tag, n))
            b.run(H.mat("r" + tag, 2, n))
            b.test(H.mat("t" + tag, 1, n), dd("td" + tag, 1))
            for u, v in zip(ws(b), w0):
                H.eq(u, v, "weights after predictions")
        x, d = H.mat("x", 1, n), dd("d", 1)
        ask("0")
        ea, ma = a.train(x, d, epochs=1)
        eb, mb = b.train(x, d, epochs=1)
        H.eq(eb, ea, "errors of the training")
        H.eq(mb, ma, "MSE of the training")
        ask("1")
        for u, v in zip(ws(b), ws(a)):
            H.eq(u, v, "weights after the training")
        z = H.vec("z", n)
        H.eq(b.predict(z), a.predict(z), "prediction at the end")
        u = dd("u", 1)
        u = u[0]
        H.eq(b.update(u), a.update(u), "update")
        for u, v in zip(ws(b), ws(a)):
            H.eq(u, v, "weights after the update")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for kind in ALL:
        h = kind in ("RLS",)
        out.append(case(kind + "-adapt", filt(kind, 2, 2, 2), "n=2, 2 samples, 2 different predictions before each", 5, time=300))
        out.append(case(kind + "-n1", filt(kind, 1, 3, 1), "n=1, 3 samples", 5, time=300))
        out.append(case(kind + "-run", filt(kind, 1, 1, 1, "run"), "n=1, run of two samples", 5, time=300))
        out.append(case(kind + "-mixed", filt(kind, 1, 2, 3, "mixed"), "n=1, run and single sample, 3 predictions each", 5, time=300))
        fx = {"RLS": {"mu": 0.5, "eps": 0.5}, "AP": {"ifc": 0.5}}.get(kind, {})
        out.append(case(kind + "-idle", filt(kind, 2, 1, 3, idle=30, fixed=fx), "n=2, predictions spread over 30 error-free samples", 5, time=300))
        out.append(case(kind + "-many", many(kind, 1, 2100 if th else 1100, {"order": 2} if kind == "AP" else {}), "n=1, %d predictions between two samples" % (2100 if th else 1100), 5, time=300))
        for bad in ("nan", "inf"):
            out.append(case("%s-%s" % (kind, bad), nonfinite(kind, 2, bad), "n=2, predictions of samples with %s before each of two samples" % bad, 5, time=300))
    for bad in ("nan", "inf") if th else ("nan",):
        for outs in (1, 2):
            out.append(case("MLP-%d-%s" % (outs, bad), net_nonfinite(outs, "tanh", bad), "[2], 2 inputs, %d outputs, predictions with %s" % (outs, bad), 5, time=300))
    for mem in (2, 5):
        out.append(case("OCNLMS-mem%d" % mem, filt("OCNLMS", 1, 4, 1, fixed={"mem": mem}), "n=1, memory %d, 4 samples" % mem, 8, time=300))
    for layers, n, outs, act in (([2], 2, 1, "sigmoid"), ([1], 1, 2, "tanh"), ([1, 1], 1, 1, "sigmoid")):
        out.append(case("MLP-%s-%d-%s" % ("_".join(map(str, layers)), outs, act), net(layers, n, outs, act), "layers %s, %d outputs" % (layers, outs), 8, time=300))
    return out
