"""P26: the function a network computes, its initial weights and learning rates"""
from .mlp import *

OUTSIDE = "larger networks than the bounds; the distribution of numpy's normal draws; rounding"


def output(layers, n, outs, act, mu="sym", default_act=False):
    def fn(H):
        m = {"sym": lambda: H.real("mu"), "auto": lambda: "auto", "float": lambda: 0.5}[mu]()
        f = H.pa.ann.NetworkMLP(layers, n, outputs=outs, mu=m) if default_act else build(H, layers, n, outs, act, m)
        ws, out = draw_weights(H, layers, n, outs)
        set_weights(H, f, ws, out, outs)
        S = Net(H, ws, out, act)
        x = H.grid("x", 2, n)
        Y = [S.forward(r) for r in x]
        y = f.predict(H.array(x[0]))
        H.eq(H.shape(y), () if outs == 1 else (outs,), "shape of the output")
        H.eq(unpack(H, y, outs), Y[0], "output")
        H.eq(unpack(H, f.predict(x[1]), outs), Y[1], "output for a list")
        H.eq(unpack(H, f.predict(H.array(x[0])), outs), Y[0], "first output again")
        r = f.run(H.array(x))
        H.eq(r, [v[0] for v in Y] if outs == 1 else Y, "run")
        d = [target(H, "d%d_" % k, outs) for k in range(2)]
        t = f.test(H.array(x), rows(H, d, outs))
        E = [H.vsub(a, b) for a, b in zip(d, Y)]
        H.eq(t, [v[0] for v in E] if outs == 1 else E, "test")
        w2, o2 = weights(H, f, outs)
        H.eq([v for l in w2 for r in l for v in r], [v for l in ws for r in l for v in r], "hidden weights afterwards")
        H.eq(o2, out, "output weights afterwards")
    return fn


def initial(layers, n, outs, act, mu):
    def fn(H):
        m = "auto" if mu == "auto" else H.real("mu")
        f = build(H, layers, n, outs, act, m)
        ws, out = weights(H, f, outs)
        sizes = [n] + list(layers)
        used = set()
        total = sum(sizes[l + 1] * (sizes[l] + 1) for l in range(len(layers))) + outs * (sizes[-1] + 1)
        g = [H.gauss(i) for i in range(total)]
        for l, w in enumerate(ws + [out]):
            k = sizes[l]
            want = (sizes[l + 1] if l < len(layers) else outs, k + 1)
            H.eq(H.shape(w), want, "shape of layer %d" % l)
            s = 1 / H.sqrt(k)
            for r in w:
                for v in r:
                    for i in range(total):
                        if i in used:
                            continue
                        q = H.same(v, g[i] * s)
                        if isinstance(q, bool) and q:
                            used.add(i)
                            break
                    else:
                        H.false("a weight of layer %d is not an own draw with mean 0 and deviation %d^-0.5" % (l, k))
        # learning rates, seen in one update
        x, d = H.reals("x", n), target(H, "d", outs)
        S = Net(H, ws, out, act)
        mus = [1 / H.sqrt(k) if mu == "auto" else m for k in sizes]
        e, incs, dout = S.gradient_step(x, d, mus)
        f.predict(H.array(x))
        f.update(pack(H, d, outs))
        w2, o2 = weights(H, f, outs)
        H.eq(o2, [H.vadd(a, b) for a, b in zip(out, dout)], "output weights after an update")
        for l in range(len(ws)):
            H.eq(w2[l], [H.vadd(a, b) for a, b in zip(ws[l], incs[l])], "weights of layer %d after an update" % l)
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    nets = [([1], 1, 1), ([2], 1, 1), ([3], 2, 1), ([3], 1, 2), ([3, 2], 1, 1), ([2], 3, 2), ([1], 2, 3), ([1, 1], 1, 1), ([2, 1], 2, 1), ([1, 2], 1, 2), ([2, 2], 1, 2), ([1, 1, 1], 1, 1), ([1, 2, 1], 1, 2)]
    if th:
        nets += [([4], 4, 3), ([3, 2], 2, 2), ([2, 2, 2], 2, 1)]
    for act in ("sigmoid", "tanh"):
        for L, n, o in nets:
            nm = "%s-%d-%d-%s" % ("_".join(map(str, L)), n, o, act)
            out.append(case("output-" + nm, output(L, n, o, act), "layers %s, %d inputs, %d outputs, 2 rows" % (L, n, o), 5 * len(L), time=400))
            if len(L) < 3:
                for mu in ("auto", "given"):
                    out.append(case("initial-%s-%s" % (nm, mu), initial(L, n, o, act, mu), "layers %s, %d inputs, %d outputs" % (L, n, o), 8 * len(L), time=400))
        for L, n, o in (([8], 3, 1), ([17], 2, 2), ([40], 1, 1), ([2], 40, 1), ([1], 129, 1), ([1], 1, 12), ([6, 5], 2, 1), ([2, 2, 2], 2, 1), ([1, 1, 1, 1], 1, 1), ([1, 2, 1, 2, 1], 1, 1), ([1] * 8, 1, 1)):
            nm = "%s-%d-%d-%s" % ("_".join(map(str, L)), n, o, act)
            out.append(case("output-" + nm, output(L, n, o, act), "layers %s, %d inputs, %d outputs, 2 rows" % (L, n, o), 5 * len(L), time=400))
    out.append(case("default-activation", output([2], 2, 1, "sigmoid", "auto", True), "layers [2]", 3))
    return out
