"""P10: objects do not influence each other"""
from .common import *

OUTSIDE = "more than two simultaneous objects with symbolic histories; module level state is covered by the package being shared by both"


def pair(k1, k2, n=2, share=True, order=0):
    """two filters used alternately against each of them alone (the reference runs first or last)"""
    def fn(H):
        p1, p2 = draw_params(H, k1, "a"), draw_params(H, k2, "a" if share else "b")
        w0 = H.vec("w", n)
        wl = H.snapshot(w0)
        X, E = H.grid("x", 4, n), H.reals("e", 4)

        def alone(kind, p, idx):
            f = make(H, kind, n, p, wl)
            out, D = [], []
            for i in idx:
                y = f.predict(H.array(X[i]))
                D.append(E[i] + y)
                f.adapt(D[-1], H.array(X[i]))
                out.append(H.snapshot(f.w))
            return out, D
        i1, i2 = [0, 2], [1, 3]
        r1, D1 = alone(k1, p1, i1)
        r2, D2 = alone(k2, p2, i2)
        f, g = make(H, k1, n, p1, w0), make(H, k2, n, p2, w0)
        for j in range(2):
            x = H.array(X[i1[j]])
            f.adapt(D1[j], x)
            H.eq(f.w, r1[j], "first filter, step %d" % j)
            if j == 0:
                H.eq(g.w, wl, "second filter before its first sample")
                g.predict(H.array(X[i1[j]]))
            g.adapt(D2[j], H.array(X[i2[j]]))
            H.eq(g.w, r2[j], "second filter, step %d" % j)
            H.eq(f.w, r1[j], "first filter after a step of the second")
        H.eq(w0, wl, "the common weights array")
        # a new filter of the same kind starts clean
        r = make(H, k1, n, p1, w0)
        H.eq(r.w, wl, "weights of a new filter")
        y, e, h = r.run(H.array(D1), H.array([X[i] for i in i1]))
        H.eq(h, [wl] + r1[:-1], "new filter: weight rows")
        H.eq(r.w, r1[-1], "new filter: final weights")
        H.eq(f.w, r1[-1], "first filter at the end")
    return fn


def runs(k1, k2, n=1):
    def fn(H):
        p1, p2 = draw_params(H, k1, "a"), draw_params(H, k2, "b")
        X, E, V = H.grid("x", 2, n), H.reals("e", 2), H.grid("v", 2, n)
        w, u = H.reals("w", n), H.reals("u", n)
        a = make(H, k1, n, p1, w)
        D = [E[0] + a.predict(H.array(X[0])), E[1]]
        y, e, h = a.run(H.array(D), H.array(X))
        ref = [H.snapshot(y), H.snapshot(e), H.snapshot(h), H.snapshot(a.w)]
        f = make(H, k1, n, p1, w)
        g = make(H, k2, n, p2, u)
        g.run(H.array(E), H.array(V))
        y, e, h = f.run(H.array(D), H.array(X))
        for s, t in zip((y, e, h, f.w), ref):
            H.eq(s, t, "run after a run of another filter")
        k = g.predict(H.array(X[0]))
        H.eq(a.w, ref[3], "an older filter")
    return fn


def crowd(kind, count, n=1):
    """many filters of one kind made and used in between"""
    def fn(H):
        p = draw_params(H, kind)
        w, v = H.reals("w", n), H.reals("v", n)
        a, b = make(H, kind, n, p, w), make(H, kind, n, p, w)
        x, e = H.grid("x", 2, n), H.reals("e", 2)
        d = [e[0] + a.predict(H.array(x[0]))]
        a.adapt(d[0], H.array(x[0]))
        d.append(e[1] + a.predict(H.array(x[1])))
        W = [H.snapshot(a.w)]
        a.adapt(d[1], H.array(x[1]))
        W.append(H.snapshot(a.w))
        T, S, Z = (H.array([[1] * n, [-2] * n], dtype="float64"), [3, 5], [0] * n)
        t, R = make(H, kind, n, p, Z), []
        for r in range(2):
            t.adapt(S[r], T[r])
            R.append(H.snapshot(t.w))
        old = []
        for r in range(2):
            others = []
            for k in range(count):
                o = make(H, kind, n, p, v if k % 2 else Z)
                if k % 2 == 0:
                    o.adapt(S[0], T[0])
                    H.eq(o.w, R[0], "first sample of another filter")
                others.append(o)
            b.adapt(d[r], H.array(x[r]))
            H.eq(b.w, W[r], "weights among %d others, sample %d" % (count, r))
            H.eq(others[-1].w, v if (count - 1) % 2 else R[0], "weights of the last other")
            old += others[:count:2]
        for o in old[:3] + old[-3:]:
            o.adapt(S[1], T[1])
            H.eq(o.w, R[1], "second sample of another filter")
    return fn


def factory(kind, weights, n=2):
    """filters made by name with the same arguments, filter_data in between"""
    def fn(H):
        p = draw_params(H, kind)
        w = H.reals("w", n) if weights == "given" else "zeros"
        start = list(w) if weights == "given" else [0] * n
        F, get = H.pa.filters.AdaptiveFilter, H.pa.filters.get_filter
        X, E = H.grid("x", 2, n), H.reals("e", 2)
        a = make(H, kind, n, p, w)
        D, ref = [], []
        for k in range(2):
            D.append(a.predict(H.array(X[k])) + E[k])
            a.adapt(D[k], H.array(X[k]))
            ref.append(H.snapshot(a.w))
        f, g = F(kind, n=n, w=w, **p), F(kind, n=n, w=w, **p)
        f.predict(H.array(X[0]))
        f.adapt(D[0], H.array(X[0]))
        H.eq(f.w, ref[0], "first filter, first sample")
        H.eq(g.w, start, "second filter before its first sample")
        h, i = F(kind, n=n, w=w, **p), get(kind)(n=n, w=w, **p)
        H.eq(h.w, start, "filter made after a sample of another one")
        H.eq(i.w, start, "filter of the class found by name")
        y0, e0, r0 = H.pa.filters.filter_data(H.array(D), H.array(X), model=kind, w=w, **p)
        H.eq(f.w, ref[0], "first filter after filter_data")
        y1, e1, r1 = H.pa.filters.filter_data(H.array(D), H.array(X), model=kind, w=w, **p)
        for s in (r0, r1):
            H.eq(s, [start, ref[0]], "weight rows of filter_data")
        for t in (g, i, h):
            t.predict(H.array(X[0]))
            t.adapt(D[0], H.array(X[0]))
            H.eq(t.w, ref[0], "first sample of another filter")
        for t in (f, h, g):
            t.predict(H.array(X[1]))
            t.adapt(D[1], H.array(X[1]))
            H.eq(t.w, ref[1], "second sample")
        H.eq(i.w, ref[0], "filter left alone")
        H.eq([y1, e1], [H.leaves(y0), H.leaves(e0)], "filter_data again")
    return fn


def nets(layers, n, outs, act, other="sigmoid"):
    def fn(H):
        N = H.pa.ann.NetworkMLP

        def ws(t):
            return [H.snapshot(t.w)] + [H.snapshot(l.w) for l in t.layers]

        def copy(t, s):
            t.w = H.array(s[0])
            for l, v in zip(t.layers, s[1:]):
                l.w = H.array(v)

        def dd(name, m):
            return H.vec(name, m) if outs == 1 else H.mat(name, m, outs)
        a = N(layers, n, outputs=outs, activation=act, mu=H.real("mu"))
        start = ws(a)
        x, d = H.mat("x", 1, n), dd("d", 1)
        e, m = a.train(x, d, epochs=2)
        ref, re = ws(a), H.snapshot(e)
        b = N(layers, n, outputs=outs, activation=act, mu=H.real("mu"))
        c = N(layers, n, outputs=outs, activation=other, mu="auto")
        copy(b, start)
        cw = ws(c)
        e1, m = b.train(x, d, epochs=1)
        for u, v in zip(ws(c), cw):
            H.eq(u, v, "weights of another network")
        c.predict(H.vec("q", n))
        c.update(dd("cd", 1)[0])
        e2, m = b.train(x, d, epochs=1)
        # the steps of two networks in turn
        s1, s2 = N(layers, n, outputs=outs, activation=act, mu=H.real("mu")), N(layers, n, outputs=outs, activation=act, mu=H.real("mu"))
        copy(s1, start), copy(s2, start)
        stray = H.vec("o", n)
        for k in range(2):
            s1.predict(x[0])
            s2.predict(stray)
            s1.update(d[0])
            s2.update(dd("sd%d" % k, 1)[0])
        for u, v in zip(ws(s1), ref):
            H.eq(u, v, "weights of a network whose steps alternate with those of another")
        H.eq([H.leaves(e1), H.leaves(e2)], [H.leaves(re)[:outs], H.leaves(re)[outs:]], "errors")
        for u, v in zip(ws(b), ref):
            H.eq(u, v, "weights of the interleaved network")
        for u, v in zip(ws(a), ref):
            H.eq(u, v, "weights of the first network")
    return fn


def cases(tier):
    out = []
    for k in ALL:
        out.append(case(k + "-" + k, pair(k, k), "n=2, two filters of one model with the same parameters and weights array, 2 samples each", 5, time=300))
        out.append(case(k + "-" + k + "-b", pair(k, k, 1, False), "n=1, two filters of one model, different parameters", 5, time=300))
        out.append(case(k + "-runs", runs(k, k), "n=1, batch runs of two samples", 5, time=300))
    for k in ALL:
        for w in ("zeros", "given"):
            out.append(case("%s-factory-%s" % (k, w), factory(k, w, 2 if k not in ("AP", "RLS", "OCNLMS") or tier != "quick" else 1),
                            "filters made by name with the same arguments, 2 samples", 5, time=300))
    for k in ALL:
        out.append(case(k + "-crowd", crowd(k, 130), "n=1, 260 other filters of the model, half of them used", 5, time=300))
    for i, k in enumerate(ALL):
        for j in (1, 4, 7):
            k2 = ALL[(i + j) % len(ALL)]
            out.append(case(k + "-" + k2, pair(k, k2, 1, False), "n=1, different models, 2 samples each", 5, time=300))
    for layers, n, outs, act in (([2], 1, 1, "sigmoid"), ([1], 1, 2, "tanh"), ([1, 1], 1, 1, "sigmoid")):
        out.append(case("MLP-%s-%d-%s" % ("_".join(map(str, layers)), outs, act), nets(layers, n, outs, act), "layers %s, %d outputs" % (layers, outs), 8, time=300))
    return out
