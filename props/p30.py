"""P30: filters and detectors are causal"""
from .common import *

OUTSIDE = "longer histories than the bounds; rounding"


def filt(kind, n, N, k, idle=0, fixed=None):
    """two runs whose data agree before sample k; the sample k itself may differ in its target only (second comparison)"""
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        w = H.reals("w", n) if not idle else "zeros"
        pre = [[(i * 7 + 3 * j) % 5 - 2 for j in range(n)] for i in range(idle)]
        x, d = H.grid("x", N, n), []
        ref = make(H, kind, n, p, w)
        if idle:
            ref.run(H.array([0] * idle, dtype="float64"), H.array(pre, dtype="float64"))
        for i in range(N):                     # any targets: the filter's own prediction plus any error
            d.append(ref.predict(H.array(x[i])) + H.real("e%d" % i) if i < k else H.real("d%d" % i))
            if i < k:
                ref.adapt(d[i], H.array(x[i]))
        x2 = x[:k] + H.grid("z", N - k, n)
        d2 = d[:k] + H.reals("c", N - k)
        f, g, h = make(H, kind, n, p, w), make(H, kind, n, p, w), make(H, kind, n, p, w)
        x3 = x[:k + 1] + x2[k + 1:]
        d3 = d2
        K, lo = k + idle, max(0, idle - 1)
        x, x2, x3 = pre + x, pre + x2, pre + x3
        d, d2, d3 = [0] * idle + d, [0] * idle + d2, [0] * idle + d3
        r = [v.run(H.array(b), H.array(a)) for v, a, b in ((f, x, d), (g, x2, d2), (h, x3, d3))]
        (y, e, W), (y2, e2, W2), (y3, e3, W3) = [[H.snapshot(v) for v in t] for t in r]
        for nm, a, b in (("other samples", y2, e2), ("another target", y3, e3)):
            H.eq(a[lo:K], y[lo:K], "outputs before, " + nm)
            H.eq(b[lo:K], e[lo:K], "errors before, " + nm)
        H.eq(W2[lo:K + 1], W[lo:K + 1], "weights up to the sample, other samples")
        H.eq(W3[lo:K + 1], W[lo:K + 1], "weights up to the sample, another target")
        H.eq(y3[K], y[K], "output for the sample with another target")
        # fewer samples: a shorter series is the beginning of a longer one
        if K:
            q = make(H, kind, n, p, w)
            y4, e4, W4 = q.run(H.array(d[:K]), H.array(x[:K]))
            H.eq(H.snapshot(y4)[lo:], y[lo:K], "outputs of the shorter series")
            H.eq(H.snapshot(e4)[lo:], e[lo:K], "errors of the shorter series")
            H.eq(H.snapshot(W4)[lo:], W[lo:K], "weight record of the shorter series")
            H.eq(q.w, W[K], "final weights of the shorter series")
    return fn


def detector(what, N, n, k, m=2, order=1, alpha=0, method=None, idle=0):
    """weight histories (and errors) that agree up to row k"""
    def fn(H):
        w = H.grid("w", N, n)
        w2 = w[:k + 1] + H.grid("v", N - k - 1, n)
        e = H.reals("e", N)
        e2 = e[:k + 1] + H.reals("u", N - k - 1)
        if idle:
            pre = [[Fr((7 * r * r + 3 * r + 5 * i * r) % 23 - 11, 4) for i in range(n)] for r in range(idle)]
            pre = [[float(a) for a in r] if H.concrete else r for r in pre]
            w, w2 = pre + w, pre + w2
            e, e2 = [(r * 5) % 9 - 4 for r in range(idle)] + e, [(r * 5) % 9 - 4 for r in range(idle)] + e2
        D = H.pa.detection
        if what == "le":
            al = [H.real("alpha%d" % i) for i in range(alpha)]
            f = (lambda a: D.learning_entropy(H.array(a), m=m, order=order, alpha=al)) if alpha else (lambda a: D.learning_entropy(H.array(a), m=m, order=order))
            a, b, last, short = f(w), f(w2), k + idle, f(w[:k + idle + 1])
        elif what == "elbnd":
            a, b, last, short = [D.ELBND(H.array(u), H.array(v), method) for u, v in ((w, e), (w2, e2))] + [None, None]
            last = k + idle - 1
            short = D.ELBND(H.array(w[:k + idle + 1]), H.array(e[:k + idle + 1]), method)
        else:
            f = lambda a: D.ESE(H.array(a), window=m, pot_method=method)
            a, b, last, short = f(w), f(w2), k + idle, f(w[:k + idle + 1]) if k + idle >= m else None
        a, b = H.snapshot(a), H.snapshot(b)
        H.eq(b[:last + 1], a[:last + 1], "values up to the row")
        if short is not None:
            H.eq(H.snapshot(short)[:last + 1], a[:last + 1], "values of the shorter history")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for kind in ALL:
        heavy = kind in ("RLS", "AP")
        for n, N, k in ((1, 2, 0), (1, 2, 1), (2, 2, 0), (2, 2, 1), (1, 3, 2), (1, 3, 1), (2, 3, 2)):
            if heavy and N * n > (4 if th else 3):
                continue
            if kind in ("VSLMS_BENVENISTE", "OCNLMS", "GNGD") and N * n > 4 and not th:
                continue
            out.append(case("%s-%d-%d-%d" % (kind, n, N, k), filt(kind, n, N, k), "n=%d, %d samples, histories that differ from sample %d on" % (n, N, k), 3 * N * n, time=300))
        fx = {"ifc": 0.5} if kind == "AP" else {"mu": 1, "eps": 2} if kind == "RLS" else {}
        for idle in (60, 300) if kind != "RLS" else (30,):
            out.append(case("%s-idle%d" % (kind, idle), filt(kind, 1, 2, 1, idle, fx), "n=1, %d samples, the last 2 symbolic, differing from the last but one on" % (idle + 2), 10, time=300))
            out.append(case("%s-idle%d-2" % (kind, idle), filt(kind, 2, 2, 0, idle, fx), "n=2, %d samples, the last 2 symbolic and different" % (idle + 2), 10, time=300))
    for m, order, idle in ((10, 1, 30), (10, 1, 300), (3, 4, 40), (40, 2, 90)):
        out.append(case("le-long-%d-%d-%d" % (m, order, idle), detector("le", 3, 1, 1, m, order, idle=idle), "window %d, order %d, last 3 of %d rows symbolic" % (m, order, idle + 3), 5, time=300))
        out.append(case("le-direct-long-%d-%d-%d" % (m, order, idle), detector("le", 3, 1, 1, m, order, 2, idle=idle), "window %d, order %d, 2 sensitivities, last 3 of %d rows symbolic" % (m, order, idle + 3), 5, time=300))
    for idle in (14, 100, 1100):
        for fun in ("max", "sum"):
            out.append(case("elbnd-long-%s-%d" % (fun, idle), detector("elbnd", 3, 2, 1, method=fun, idle=idle), "last 3 of %d rows symbolic" % (idle + 3), 5, time=300))
    for m, method, idle in ((10, "10%", 20), (10, "sqrt", 100), (30, "log10", 60)):
        out.append(case("ese-long-%d-%s-%d" % (m, method, idle), detector("ese", *((2, 1, 0) if idle < 60 else (1, 1, -1)), m, method=method, idle=idle), "window %d, %d rows, the last 1 or 2 symbolic" % (m, idle + 2), 5, time=300))
    for m, order in ((1, 1), (2, 1), (3, 1), (2, 2), (1, 3)):
        N = 5
        for k in range(0, N - 1):
            out.append(case("le-%d-%d-%d" % (m, order, k), detector("le", N, 2, k, m, order), "%d weight vectors of 2, window %d, order %d, from row %d on" % (N, m, order, k + 1), 3, time=300))
            out.append(case("le-direct-%d-%d-%d" % (m, order, k), detector("le", N, 2, k, m, order, 2), "%d weight vectors of 2, window %d, order %d, 2 sensitivities, from row %d on" % (N, m, order, k + 1), 3, time=300))
    for fun in ("max", "sum"):
        for k in range(0, 3):
            out.append(case("elbnd-%s-%d" % (fun, k), detector("elbnd", 4, 2, k, method=fun), "4 weight vectors of 2, from row %d on" % (k + 1), 3, time=300))
    for N, n, k, m, method in ((4, 1, 2, 1, "10%"), (4, 1, 2, 2, "sqrt"), (5, 1, 3, 2, "30%")) + (((5, 1, 2, 2, "sqrt"), (3, 2, 1, 1, "sqrt")) if th else ()):
        out.append(case("ese-%d-%d-%d-%d-%s" % (N, n, k, m, method), detector("ese", N, n, k, m, method=method), "%d weight vectors of %d, window %d, method %s, from row %d on" % (N, n, m, method, k + 1), 5, time=300))
    return out
