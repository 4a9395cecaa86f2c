"""P01: batch run == split batch runs == sample by sample"""
from .common import *

OUTSIDE = "more samples, features or AP orders than the bounds; OCNLMS with mem=1 (mean of nothing); rounding"


def mk(kind, n, N, split, tail=1, idle=0, fixed=None, w0="sym", busy=False):
    """split: sizes of consecutive pieces, negative = that many single-sample calls"""
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        w = H.reals("w", n) if w0 == "sym" else "zeros"
        a = make(H, kind, n, p, w)          # streaming
        b = make(H, kind, n, p, w)          # one batch
        c = make(H, kind, n, p, w)          # pieces
        X = [[(k * 7 + 3 * i) % 5 - 2 for i in range(n)] for k in range(idle)]
        X += [H.reals("x%d_" % k, n) for k in range(N)]
        D, Y, W = [], [], []
        for k in range(idle + N):
            x = H.array(X[k])
            W.append(H.snapshot(a.w))
            y = a.predict(x)
            Y.append(y)
            # every target is covered: it is written as prediction + error
            D.append(y + (H.real("e%d" % (k - idle)) if k >= idle else Fr((k * 5) % 7 - 3, 4) if busy else 0))
            a.adapt(D[k], x)
        E = [D[k] - Y[k] for k in range(idle + N)]
        Wend = H.snapshot(a.w)
        lo = max(0, idle - 1)
        y1, e1, h1 = b.run(H.array(D), H.array(X))
        H.eq(y1[lo:], Y[lo:], "batch outputs")
        H.eq(e1[lo:], E[lo:], "batch errors")
        H.eq(h1[lo:], W[lo:], "batch weight rows")
        H.eq(b.w, Wend, "weights after the batch")
        k = 0
        for s in split:
            if s < 0:
                for _ in range(-s):
                    x = H.array(X[k])
                    H.eq(c.predict(x), Y[k], "pieces: prediction")
                    c.adapt(D[k], x)
                    k += 1
            else:
                y2, e2, h2 = c.run(H.array(D[k:k + s]), H.array(X[k:k + s]))
                q = max(0, lo - k)
                if q < s:
                    H.eq(y2[q:], Y[k + q:k + s], "pieces: outputs")
                    H.eq(e2[q:], E[k + q:k + s], "pieces: errors")
                    H.eq(h2[q:], W[k + q:k + s], "pieces: weight rows")
                k += s
            H.eq(c.w, W[k] if k < idle + N else Wend, "pieces: weights")
        assert k == idle + N
        for t in range(tail):
            x = H.vec("tx%d_" % t, n)
            y = a.predict(x)
            d = y + H.real("te%d" % t)
            H.eq(b.predict(x), y, "prediction after the batch")
            H.eq(c.predict(x), y, "prediction after the pieces")
            a.adapt(d, x)
            wa = H.snapshot(a.w)
            b.adapt(d, x)
            H.eq(b.w, wa, "weights one sample after the batch")
            y2, e2, h2 = c.run(H.array([d]), H.array([H.snapshot(x)]))
            H.eq(y2, [y], "run of one sample after the pieces: output")
            H.eq(c.w, wa, "run of one sample after the pieces: weights")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for kind in ALL:
        heavy = kind in ("VSLMS_BENVENISTE", "RLS", "AP", "GNGD", "OCNLMS", "VSLMS_ANG")
        sgn = kind in ("SSLMS", "NSSLMS")
        out.append(case(kind + "-n2-N2", mk(kind, 2, 2, [1, -1]), "n=2, 2+1 samples, pieces [1 | single]", 10, time=200))
        out.append(case(kind + "-n1-N3", mk(kind, 1, 3, [2, 1], tail=1), "n=1, 3+1 samples", 10, time=200))
        out.append(case(kind + "-n1-N2", mk(kind, 1, 2, [-1, 1], tail=1), "n=1, 2+1 samples", 3, time=200))
        if not heavy:
            out.append(case(kind + "-n1-N12", mk(kind, 1, 12, [3, -2, 7], tail=0), "n=1, 12 samples", 10, time=200))
            out.append(case(kind + "-n3-N1", mk(kind, 6 if not sgn else 3, 1, [1]), "n=6, 1+1 samples", 5))
        fx = {"order": 2}
        for nm, idle, spl in (("a", 40, [13, -3, 25]), ("b", 260, [130, -2, 129])):
            fixed = {}
            if kind == "AP":
                fixed = {"ifc": 0.5, "order": 2}
            if kind == "RLS":
                if idle > 100:
                    continue
                fixed = {"mu": 0.5, "eps": 0.5}
            out.append(case(kind + "-idle-" + nm, mk(kind, 2, 1, spl, tail=0 if kind in ("RLS",) else 1, idle=idle, fixed=fixed,
                                                     w0="zeros"), "n=2, 1+1 symbolic samples after %d error-free ones" % idle, 10, time=200))
        if kind in MEMORYLESS:
            out.append(case(kind + "-busy", mk(kind, 2, 1, [130, -2, 69], tail=1, idle=200, w0="zeros", busy=True,
                                                   fixed=dict({"mu": 1 / 256}, **({"lambd": 0.5} if kind in ("GMCC", "LLNCOSH") else {}))), "n=2, 1+1 symbolic samples after 200 fixed ones", 10, time=200))
    for order in (1, 3):
        out.append(case("AP-order%d" % order, mk("AP", 1, 2, [1, 1], fixed={"order": order}), "AP order %d" % order, 10, time=200))
    for mem in (2, 5):
        out.append(case("OCNLMS-mem%d" % mem, mk("OCNLMS", 1, 3, [2, -1], fixed={"mem": mem}), "memory %d" % mem, 10, time=200))
    return out
