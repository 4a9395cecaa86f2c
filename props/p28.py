"""P28: training"""
from itertools import permutations, product as cart
from .mlp import *

OUTSIDE = "more samples, epochs and nodes than the bounds; rounding"


def twin(H, layers, n, outs, act, mu, ws, out):
    f = build(H, layers, n, outs, act, mu)
    set_weights(H, f, ws, out, outs)
    return f


def plain(layers, n, outs, act, N, E, zero=False, how="keyword"):
    """training == E passes of predict and update on a second network"""
    def fn(H):
        mu = 0 if zero else H.real("mu")
        ws, out = draw_weights(H, layers, n, outs)
        f, g = twin(H, layers, n, outs, act, mu, ws, out), twin(H, layers, n, outs, act, mu, ws, out)
        x = H.grid("x", N, n)
        d = [target(H, "d%d_" % k, outs) for k in range(N)]
        want, mse = [], []
        for _ in range(E):
            ep = []
            for k in range(N):
                y = unpack(H, g.predict(H.array(x[k])), outs)
                e = H.vsub(d[k], y)
                g.update(pack(H, d[k], outs))
                ep.append(e)
            want += ep
            mse.append(H.total([v * v for e in ep for v in e]) / N)
        X, D = H.array(x), rows(H, d, outs)
        if how == "positional":
            e, m = f.train(X, D, E)
        elif how == "default":
            e, m = f.train(X, D)
        else:
            e, m = f.train(X, D, epochs=E, shuffle=False)
        H.eq(e, [v[0] for v in want] if outs == 1 else want, "errors")
        H.eq(m, mse, "mean squared errors")
        (a, b), (c, q) = weights(H, f, outs), weights(H, g, outs)
        H.eq(b, q, "output weights")
        for l in range(len(layers)):
            H.eq(a[l], c[l], "weights of layer %d" % l)
    return fn


def bias_only(layers, n, N, E, mu, kind="float"):
    """tanh nodes at zero with zero output weights: only the output bias learns, so that the whole training is exact:
    it diverges (mu > 2), converges, or ends without error (mu = 1), and nothing of it is cut short"""
    def fn(H):
        f = build(H, layers, n, 1, "tanh", mu)
        b = H.real("b") if kind == "float" else 0
        set_weights(H, f, [[[0] * (m + 1) for _ in range(k)] for m, k in zip([n] + layers, layers)], [[b] + [0] * layers[-1]], 1)
        d = H.reals("d", N) if kind == "float" else H.ints("d", N)
        x = H.grid("x", N, n) if kind == "float" else [[(3 * k + i) % 5 - 2 for i in range(n)] for k in range(N)]
        dt = dict(dtype="int64") if kind == "int" else {}
        e, m = f.train(H.array(x, **dt), H.array(d, **dt), epochs=E)
        errs, mse = [], []
        for _ in range(E):
            for k in range(N):
                errs.append(d[k] - b)
                b = b + H.exact(mu) * errs[-1]
            mse.append(H.total([v * v for v in errs[-N:]]) / N)
        H.eq(e, errs, "errors")
        H.eq(m, mse, "mean squared errors")
        H.eq(f.w, [b] + [0] * layers[-1], "output weights")
        H.is_float(e, "errors")
    return fn


def shuffled(layers, n, outs, act, N, E, zero):
    """with shuffling: the same for one order of the samples in every epoch"""
    def fn(H):
        mu = 0 if zero else H.real("mu")
        ws, out = draw_weights(H, layers, n, outs)
        x = H.grid("x", N, n)
        d = [target(H, "d%d_" % k, outs) for k in range(N)]
        f = twin(H, layers, n, outs, act, mu, ws, out)
        e, m = f.train(H.array(x), rows(H, d, outs), epochs=E, shuffle=True)
        H.eq(H.shape(e), (N * E,) if outs == 1 else (N * E, outs), "shape of the errors")
        H.eq(H.shape(m), (E,), "shape of the mean squared errors")
        got = H.snapshot(e) if outs > 1 else [[v] for v in H.leaves(e)]
        a, b = weights(H, f, outs)
        fin = [v for l in a for r in l for v in r] + [v for r in b for v in r]
        g0 = twin(H, layers, n, outs, act, mu, ws, out)
        ys = [unpack(H, g0.predict(H.array(r)), outs) for r in x] if zero else None
        alts = []
        for orders in cart(*[list(permutations(range(N)))] * E):
            g = twin(H, layers, n, outs, act, mu, ws, out) if not zero else None
            conds = []
            k = 0
            for ep, order in enumerate(orders):
                sq = 0
                for i in order:
                    if zero:
                        y = ys[i]
                    else:
                        y = unpack(H, g.predict(H.array(x[i])), outs)
                        g.update(pack(H, d[i], outs))
                    for o in range(outs):
                        v = d[i][o] - y[o]
                        sq = sq + v * v
                        conds.append(H.same(got[k][o], v))
                    k += 1
                conds.append(H.same(H.leaves(m)[ep], sq / N))
            if not zero:
                a, b = weights(H, g, outs)
                conds += [H.same(p, q) for p, q in zip(fin, [v for l in a for r in l for v in r] + [v for r in b for v in r])]
            c = H.and_(*conds)
            alts.append(c)
            if isinstance(c, bool) and c:
                break
        H.check(H.or_(*alts), "training equals passes over the paired samples in some order")
        H.eq(H.leaves(m), [H.total([v * v for e in got[k * N:(k + 1) * N] for v in e]) / N for k in range(E)], "mean squared errors")
    return fn


def turned(N, outs, n=1):
    """shuffled training of many samples; the shuffle turns the order round"""
    def fn(H):
        H.order_shuffles(lambda m: list(range(m))[::-1])
        f = build(H, [1], n, outs, "tanh", 0)
        c = H.real("c")
        # output o of sample x is c + x[0] at a node which is the sum of its inputs; tanh is left out by a zero weight
        set_weights(H, f, [[[H.real("u")] + [1] + [0] * (n - 1)]], [[c, H.real("v")] for _ in range(outs)], outs)
        x = [[k] + [1] * (n - 1) for k in range(N)]
        d = [[H.real("z") + 1000 * k + 7 * o for o in range(outs)] for k in range(N)]
        ys = [unpack(H, f.predict(H.array(r)), outs) for r in x]
        e, m = f.train(H.array(x), rows(H, d, outs), epochs=1, shuffle=True)
        want = [H.vsub(d[k], ys[k]) for k in reversed(range(N))]
        H.eq(e, [v[0] for v in want] if outs == 1 else want, "errors")
        H.eq(m, [H.total([v * v for w in want for v in w]) / N], "mean squared error")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    deep = [([1], 1, 1, 3, 1), ([1], 1, 1, 2, 2), ([2], 2, 1, 2, 1), ([1, 1], 1, 1, 2, 1), ([1, 2], 1, 1, 1, 2), ([2, 2], 2, 2, 1, 1), ([3], 2, 2, 2, 1), ([1], 1, 1, 1, 3), ([1], 1, 1, 1, 4), ([1], 1, 2, 1, 3)]
    for act in ("sigmoid", "tanh"):
        for L, n, o, N, E in (([1], 1, 1, 2, 1), ([1], 1, 1, 1, 2), ([2], 1, 1, 2, 1), ([1], 2, 2, 2, 1), ([1], 1, 3, 1, 1), ([1, 1], 1, 1, 1, 1), ([2, 1], 1, 2, 1, 1), *deep):
            nm = "%s-%d-%d-N%d-E%d-%s" % ("_".join(map(str, L)), n, o, N, E, act)
            out.append(case("plain-" + nm, plain(L, n, o, act, N, E), "layers %s, %d outputs, %d samples, %d epochs" % (L, o, N, E), 10 * N * E * sum(L), time=400))
        for L, n, o, N, E in (([1], 1, 1, 3, 4), ([2], 2, 2, 4, 3), ([1, 2], 1, 1, 3, 2)):
            nm = "%s-%d-%d-N%d-E%d-%s" % ("_".join(map(str, L)), n, o, N, E, act)
            out.append(case("zero-rate-" + nm, plain(L, n, o, act, N, E, True), "rate 0, layers %s, %d outputs, %d samples, %d epochs" % (L, o, N, E), 10, time=400))
            out.append(case("positional-" + nm, plain(L, n, o, act, N, E, True, "positional"), "rate 0, layers %s, %d outputs, %d samples, %d epochs" % (L, o, N, E), 10, time=400))
        for L, n, o, N, E in (([1], 1, 1, 12, 1), ([1], 1, 1, 1, 40), ([1], 1, 2, 40, 2), ([1], 1, 1, 130, 1), ([1], 1, 1, 2, 130)):
            nm = "%s-%d-%d-N%d-E%d-%s" % ("_".join(map(str, L)), n, o, N, E, act)
            out.append(case("zero-rate-" + nm, plain(L, n, o, act, N, E, True), "rate 0, layers %s, %d outputs, %d samples, %d epochs" % (L, o, N, E), 10, time=400))
        if act == "tanh":
            for L, n, N, E, mu in (([1], 1, 1, 12, 4), ([2], 2, 2, 8, 3), ([1, 2], 1, 1, 8, 0.5), ([1], 1, 3, 4, 0.5), ([1], 1, 1, 6, 1), ([1], 1, 1, 5, 2), ([2], 1, 2, 30, 0.5)):
                for kind in ("float", "int"):
                    out.append(case("bias-%s-%d-N%d-E%d-%s-%s" % ("_".join(map(str, L)), n, N, E, mu, kind), bias_only(L, n, N, E, mu, kind),
                                    "layers %s at zero, rate %s, %d samples, %d epochs, %s data" % (L, mu, N, E, kind), 10, time=400))
        out.append(case("default-epochs-" + act, plain([1], 1, 1, act, 2, 10, True, "default"), "rate 0, 2 samples, the default of 10 epochs", 5, time=400))
        for L, n, o, N, E in (([1], 1, 1, 3, 1), ([1], 2, 2, 3, 2), ([2], 1, 1, 2, 3)):
            nm = "%s-%d-%d-N%d-E%d-%s" % ("_".join(map(str, L)), n, o, N, E, act)
            out.append(case("shuffle-zero-rate-" + nm, shuffled(L, n, o, act, N, E, True), "rate 0, every order, layers %s, %d outputs, %d samples, %d epochs" % (L, o, N, E), 20, time=400))
        if act == "tanh":
            for N, o in ((20, 1), (80, 1), (40, 2), (150, 1)):
                out.append(case("turned-N%d-%d" % (N, o), turned(N, o), "rate 0, order turned round, 1 hidden node, %d outputs, %d samples" % (o, N), 10, time=400))
        for L, n, o, N, E in (([1], 1, 1, 2, 1), ([1], 1, 2, 2, 1)):
            nm = "%s-%d-%d-N%d-E%d-%s" % ("_".join(map(str, L)), n, o, N, E, act)
            out.append(case("shuffle-" + nm, shuffled(L, n, o, act, N, E, False), "every order, layers %s, %d outputs, %d samples, %d epochs" % (L, o, N, E), 20, time=400))
    return out
