"""P27: one gradient step per update"""
from .mlp import *

OUTSIDE = "larger networks than the bounds; more than two consecutive updates without arbitrary weights in between; rounding"


def step(layers, n, outs, act, mu="sym", steps=1, via="predict", havoc=True):
    def fn(H):
        m = "auto" if mu == "auto" else H.real("mu")
        f = build(H, layers, n, outs, act, m)
        sizes = [n] + list(layers)
        mus = [1 / H.sqrt(k) if mu == "auto" else m for k in sizes]
        ws, out = draw_weights(H, layers, n, outs)
        set_weights(H, f, ws, out, outs)
        for k in range(steps):
            if k and havoc:
                ws, out = draw_weights(H, layers, n, outs, "s%d" % k)
                set_weights(H, f, ws, out, outs)
            x, d = H.reals("x%d_" % k, n), target(H, "d%d_" % k, outs)
            e, incs, dout = Net(H, ws, out, act).gradient_step(x, d, mus)
            ws = [[H.vadd(a, b) for a, b in zip(p, q)] for p, q in zip(ws, incs)]
            out = [H.vadd(a, b) for a, b in zip(out, dout)]
            if via == "train":
                r, mse = f.train(H.array([x]), rows(H, [d], outs), epochs=1)
                H.eq(r, [e[0]] if outs == 1 else [e], "error")
            else:
                if via == "run":
                    f.run(H.array([H.reals("o", n), x]))
                else:
                    f.predict(H.array(x))
                r = f.update(pack(H, d, outs))
                H.eq(unpack(H, r, outs), e, "error")
            w2, o2 = weights(H, f, outs)
            H.eq(o2, out, "output weights after update %d" % k)
            for l in range(len(ws)):
                H.eq(w2[l], ws[l], "weights of layer %d after update %d" % (l, k))
        q = H.reals("q", n)
        H.eq(unpack(H, f.predict(H.array(q)), outs), Net(H, w2, o2, act).forward(q), "output afterwards")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    nets = [([1], 1, 1), ([2], 2, 1), ([3], 1, 2), ([3, 2], 1, 1), ([2], 1, 2), ([1], 2, 3), ([1, 1], 1, 1), ([2, 1], 1, 1), ([1, 2], 1, 1), ([2, 2], 1, 1), ([1, 2], 1, 2),
            ([2, 1], 2, 2), ([1, 1, 1], 1, 1), ([1, 2, 1], 1, 1), ([1, 1, 1], 1, 2)]
    if th:
        nets += [([4], 3, 2), ([3, 2], 2, 1), ([2, 2, 2], 1, 1), ([2, 2], 2, 2), ([5], 2, 3)]
    for act in ("sigmoid", "tanh"):
        for L, n, o in nets:
            nm = "%s-%d-%d-%s" % ("_".join(map(str, L)), n, o, act)
            c = 10 * len(L) * sum(L)
            out.append(case(nm, step(L, n, o, act), "layers %s, %d inputs, %d outputs, one update" % (L, n, o), c, time=400))
            out.append(case(nm + "-auto", step(L, n, o, act, "auto"), "layers %s, %d inputs, %d outputs, automatic rates" % (L, n, o), c, time=400))
            if len(L) < 3:
                out.append(case(nm + "-2", step(L, n, o, act, steps=2), "layers %s, 2 updates, arbitrary weights each time" % (L,), c, time=400))
                out.append(case(nm + "-train", step(L, n, o, act, via="train"), "layers %s, one update by training" % (L,), c, time=400))
                out.append(case(nm + "-run", step(L, n, o, act, via="run"), "layers %s, one update after run" % (L,), c, time=400))
        for L, n, o in (([8], 2, 1), ([17], 1, 1), ([4], 2, 4), ([2], 20, 1), ([1], 65, 1), ([1], 1, 8), ([4, 3], 1, 1), ([2, 2, 2], 1, 1), ([1, 1, 1, 1], 1, 1), ([1, 1, 1, 1, 1, 1], 1, 1)):
            out.append(case("%s-%d-%d-%s" % ("_".join(map(str, L)), n, o, act), step(L, n, o, act), "layers %s, %d inputs, %d outputs, one update" % (L, n, o), 100, time=400))
        out.append(case("1-1-1-%s-consecutive" % act, step([1], 1, 1, act, steps=2, havoc=False), "layers [1], 2 consecutive updates", 20, time=400))
        out.append(case("1-1-2-%s-consecutive" % act, step([1], 1, 2, act, steps=2, havoc=False), "layers [1], 2 outputs, 2 consecutive updates", 20, time=400))
    return out
