"""P32: results are determined by arguments and history; randomness only where asked for"""
from .common import *

OUTSIDE = "sizes above the bounds; more than three earlier calls; generators other than numpy's global one are seen by their effect only"


def _domain(H, which, A):
    if which == "lda":
        Sw, Sb = scatters(H, A[0], [[0, 2], [1, 3]])
        D = det(H, Sw)
        H.assume(H.or_(D > H.exact(1e-3), D < -H.exact(1e-3)))
    elif which == "logse":
        for v in A[0]:
            H.assume(H.or_(v > 0, v < 0))


SHAPES = {      # arrays of the first and of the second (other shape) data set
    "history": ([(4,)], [(5,)]),
    "standardize": ([(3,)], [(2, 2)]),
    "standardize-given": ([(3,)], [(4,)]),
    "errors": ([(3,), (3,)], [(2,), (2,)]),
    "logse": ([(2,)], [(3,)]),
    "elbnd": ([(3, 2), (3,)], [(4, 1), (4,)]),
    "le": ([(4, 1)], [(3, 2)]),
    "le-order": ([(4, 1)], [(5, 1)]),
    "le-alpha": ([(4, 1), (2,)], [(3, 1), (1,)]),
    "ese": ([(4, 1)], [(3, 1)]),
    "pca": ([(3, 2)], [(4, 2)]),
    "pca-components": ([(3, 2)], [(4, 2)]),
    "lda": ([(4, 2)], [(4, 2)]),
}


def call(H, which, A, pa=None):
    """pa: another loading of the package"""
    pa = pa or H.pa
    pre, det_, m = pa.preprocess, pa.detection, pa.misc
    if which == "history":
        return [pre.input_from_history(A[0], 2), pre.input_from_history(A[0], 3, bias=True)]
    if which == "standardize":
        return [pre.standardize(A[0])]
    if which == "standardize-given":
        return [pre.standardize(A[0], offset=H.real("o"), scale=H.positive("s")), pre.standardize_back(A[0], offset=H.real("o"), scale=H.positive("s"))]
    if which == "errors":
        out = [f(*a) for f in (m.MSE, m.MAE, m.RMSE) for a in (A[:1], A)]
        return out + [m.get_mean_error(A[0], A[1], n) for n in ("MSE", "MAE", "RMSE")] + [m.get_mean_error(A[0])]
    if which == "logse":
        return [m.logSE(A[0])]
    if which == "elbnd":
        return [det_.ELBND(A[0], A[1]), det_.ELBND(A[0], A[1], "sum")]
    if which == "le":
        return [det_.learning_entropy(A[0], m=2, order=1)]
    if which == "le-order":
        return [det_.learning_entropy(A[0], m=1, order=2)[3:]]
    if which == "le-alpha":
        return [det_.learning_entropy(A[0], m=2, order=1, alpha=A[1])]
    if which == "ese":
        return [det_.ESE(A[0], window=2, pot_method="10%")]
    if which == "pca":
        return [pre.PCA(A[0], 1)]
    if which == "pca-components":
        return [pre.PCA_components(A[0])]
    if which == "lda":
        return [pre.LDA(A[0], [1, 0, 1, 0], 1), pre.LDA_discriminants(A[0], [1, 0, 1, 0])]


def data(H, which, tag, k):
    out = []
    for j, sh in enumerate(SHAPES[which][k]):
        nm = "%s%d" % (tag, j)
        out.append(H.reals(nm, sh[0]) if len(sh) == 1 else H.grid(nm, *sh))
    _domain(H, which, out)
    return out


def same(H, got, want, label):
    for i, (g, w) in enumerate(zip(got, want)):
        H.eq(g, w, "%s, result %d" % (label, i))


def quiet(H, before, label):
    for a, b, nm in zip(H.random_state(), before, ("random draws", "permutations", "reseedings", "error handling of numpy")):
        H.eq(a, b, "%s: %s" % (label, nm))


def new_process(H, which, lc):
    """a call now gives what it gives as the first one of a process"""
    r = [H.snapshot(v) for v in call(H, which, [H.array(v) for v in lc])]
    same(H, r, call(H, which, [H.array(v) for v in lc], H.fresh()), "call with other data, and the same call in a new process")


def pure(which, how):
    """the first call of the process, then others, then the first again"""
    def fn(H):
        st = H.random_state()
        la = data(H, which, "a", 0)
        A = [H.array(v) for v in la]
        r = call(H, which, A)
        s = [H.snapshot(v) for v in r]
        quiet(H, st, "first call")
        if how == "other-shape":
            new_process(H, which, data(H, which, "b", 1))
        elif how == "other-values":
            new_process(H, which, data(H, which, "c", 0))
        elif how == "refilled":        # the arrays of the first call take other values, then the old ones again
            lc = data(H, which, "c", 0)
            for x, v in zip(A, lc):
                H.fill(x, v)
            rc = [H.snapshot(v) for v in call(H, which, A)]
            same(H, r, s, "result of the first call after the arrays were refilled and used again")
            same(H, call(H, which, [H.array(v) for v in lc]), rc, "call with a copy of the new values")
            for x, v in zip(A, la):
                H.fill(x, v)
            same(H, call(H, which, A), s, "call with the old values in the same arrays")
        elif how == "result-changed":
            for v, w in zip(r, s):
                if isinstance(w, list):
                    H.fill(v, _ones(w))
            same(H, call(H, which, A), s, "call after the first result was overwritten")
        same(H, call(H, which, [H.array(v) for v in la]), s, "call with equal arguments")
        if how != "result-changed":
            same(H, r, s, "result of the first call")
        quiet(H, st, "all calls")
        f = H.pa.filters.FilterLMS(n=2, mu=1.)
        H.eq(f.w, [H.gauss(i) * H.exact(0.5) for i in range(2)], "random weights drawn afterwards")
    return fn


def _ones(w):
    return [_ones(v) for v in w] if isinstance(w, list) else 7


def across():
    """every function after every other one: one call each, in two rounds with the same data"""
    def fn(H):
        names = ["history", "standardize", "errors", "elbnd", "le", "pca-components"]
        st = H.random_state()
        D = {k: data(H, k, k.replace("-", ""), 0) for k in names}
        R = [[H.snapshot(v) for v in call(H, k, [H.array(a) for a in D[k]])] for k in names]
        for k, r in reversed(list(zip(names, R))):
            same(H, call(H, k, [H.array(a) for a in D[k]]), r, "second round, " + k)
        new = H.fresh()
        for k, r in zip(names, R):
            same(H, call(H, k, [H.array(a) for a in D[k]], new), r, "new process, " + k)
        quiet(H, st, "all calls")
    return fn


def filt(kind, w):
    def fn(H):
        p = draw_params(H, kind)
        st = H.random_state()
        n = 2

        def life(pa=None, t=""):
            f = getattr((pa or H.pa).filters, CLASS[kind])(n=n, w="zeros" if w == "zeros" else H.vec("w", n), **p)
            x = H.grid(t + "x", 2, n)
            if w == "zeros":
                f.predict(H.array(x[0]))
                f.adapt(H.real(t + "d0"), H.array(x[0]))
            y, e, h = f.run(H.array([H.real(t + "d1")]), H.array(x[1:]))
            return [H.snapshot(v) for v in (y, e, h, f.w)]
        a = life()
        quiet(H, st, "one life")
        g = H.pa.filters.filter_data(H.array([H.real("d2")]), H.array([H.reals("z", n)]), kind, w="zeros", **p)
        b = life()
        same(H, b, a, "the same life again")
        same(H, life(None, "o"), life(H.fresh(), "o"), "a life with other data, and the same in a new process")
        f = make(H, kind, 1, p, H.vec("u", 1))
        f.pretrained_run(H.array(H.reals("pd", 2)), H.array(H.grid("px", 2, 1)), ntrain=0.5, epochs=1)
        quiet(H, st, "everything")
        H.eq(make(H, kind, n, p, "random").w, [H.gauss(i) * H.exact(0.5) for i in range(n)], "random weights drawn afterwards")
    return fn


def mlp(outs, shuffle):
    def fn(H):
        mu = H.real("mu")
        f = H.pa.ann.NetworkMLP([2], 1, outputs=outs, activation="tanh", mu=mu)
        g = H.pa.ann.NetworkMLP([2], 1, outputs=outs, activation="tanh", mu=mu)
        g.w = H.array(H.snapshot(f.w))
        g.layers[0].w = H.array(H.snapshot(f.layers[0].w))
        st = H.random_state()

        def dd(name, m):
            return H.array(H.reals(name, m) if outs == 1 else H.grid(name, m, outs))

        def life(net, t=""):
            out = []
            out += net.train(H.array(H.grid(t + "x", 1, 1)), dd(t + "d", 1), epochs=1)
            out.append(net.run(H.array(H.grid("r", 2, 1))))
            out.append(net.test(H.array(H.grid("r", 2, 1)), dd("t", 2)))
            out.append(net.predict(H.vec("q", 1)))
            return [H.snapshot(v) for v in out]
        if shuffle:
            f.train(H.array(H.grid("x", 2, 1)), dd("d", 2), epochs=1, shuffle=True)
            for i in (2, 3):
                H.eq(H.random_state()[i], st[i], "shuffled training: " + ("reseedings", "error handling of numpy")[i - 2])
            return
        ws = [H.snapshot(f.w), H.snapshot(f.layers[0].w)]
        a = life(f)
        quiet(H, st, "one life")
        same(H, life(g), a, "the same life again")
        quiet(H, st, "two lives")
        nets = [pa.ann.NetworkMLP([2], 1, outputs=outs, activation="tanh", mu=mu) for pa in (H.pa, H.fresh())]
        for t in nets:
            t.w, t.layers[0].w = H.array(ws[0]), H.array(ws[1])
        same(H, life(nets[0], "o"), life(nets[1], "o"), "a life with other data, and the same in a new process")
    return fn


def cases(tier):
    out = []
    for which in SHAPES:
        for how in ("other-shape", "other-values", "refilled", "result-changed"):
            out.append(case("%s-%s" % (which, how), pure(which, how), "sizes %s and %s" % SHAPES[which], 5, time=300))
    out.append(case("across", across(), "six functions, two rounds", 5, time=300))
    for k in ALL:
        out.append(case(k + "-given", filt(k, "given"), "n=2, symbolic weights, two lives", 3, time=300))
        out.append(case(k + "-zeros", filt(k, "zeros"), "n=2, zero weights, two lives", 3, time=300))
    for outs in (1, 2):
        out.append(case("mlp-%d" % outs, mlp(outs, False), "[2], 1 input, %d outputs" % outs, 5, time=300))
        out.append(case("mlp-%d-shuffle" % outs, mlp(outs, True), "[2], 1 input, %d outputs, 2 rows" % outs, 5, time=300))
    return out
