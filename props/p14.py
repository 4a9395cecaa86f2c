"""P14: zero error, no movement"""
from .common import *

OUTSIDE = "longer histories with symbolic errors; GMCC with alpha < 1 (the published step is singular at 0)"


def still(kind, n, N, how, fixed=None):
    """symbolic history, then a sample without error"""
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        f = make(H, kind, n, p, H.reals("w", n))
        for k in range(N):
            x = H.vec("x%d_" % k, n)
            f.adapt(f.predict(x) + H.real("e%d" % k), x)
            if kind != "RLS" or n > 1:
                f.w = H.vec("w%d_" % k, n)              # any weights
        for t in range(2):
            w = H.snapshot(f.w)
            z = H.reals("z%d_" % t, n)
            d = f.predict(H.array(z))
            if how == "adapt":
                f.adapt(d, H.array(z))
            else:
                y, e, h = f.run(H.array([d]), H.array([z]))
                H.eq(e, [0], "error")
                H.eq(h, [w], "weight row")
            H.eq(f.w, w, "weights after error-free sample %d" % t)
    return fn


def perfect(kind, n, N, how, fixed=None, idle=0):
    """targets reproduced by the initial weights"""
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        w = H.reals("w", n)
        f = make(H, kind, n, p, w)
        X = [[(k * 7 + 3 * i) % 5 - 2 for i in range(n)] for k in range(idle)] + H.grid("x", N, n)
        NN = N + idle
        D = [f.predict(H.array(x)) for x in X]
        if how == "run":
            for _ in range(2 if N < 3 else 1):
                y, e, h = f.run(H.array(D), H.array(X))
                H.eq(e, [0] * NN, "errors")
                H.eq(y, D, "outputs")
                H.eq(h, [w] * NN, "weight rows")
        elif how == "pretrained":
            y, e, h = f.pretrained_run(H.array(D), H.array(X), ntrain=0.5, epochs=2)
            H.eq(e, [0] * (NN - NN // 2), "errors")
            H.eq(h, [w] * (NN - NN // 2), "weight rows")
        else:
            for k in range(NN):
                H.eq(f.predict(H.array(X[k])), D[k], "output of sample %d" % k)
                f.adapt(D[k], H.array(X[k]))
                H.eq(f.w, w, "weights after sample %d" % k)
        H.eq(f.w, w, "weights at the end")
    return fn


def cases(tier):
    out = []
    th = tier == "thorough"
    for k in ALL:
        fixes = [{}]
        if k == "GMCC":
            fixes = [{"alpha": a} for a in (2, 1, 3, 4)]
        for fx in fixes:
            nm = k + "".join("-%s%s" % i for i in fx.items())
            if k not in ("AP", "OCNLMS"):
                for n, N in ((2, 0), (2, 1), (1, 2)) + (((1, 3), (2, 2), (3, 1)) if th or k not in ("RLS", "VSLMS_BENVENISTE") else ()):
                    for how in ("adapt", "run"):
                        out.append(case("%s-n%d-N%d-%s" % (nm, n, N, how), still(k, n, N, how, fx),
                                        "n=%d, 2 error-free samples after %d arbitrary ones" % (n, N), n + 2 * N, time=300))
            if k != "OCNLMS":
                big = k not in ("RLS", "AP")
                for how in ("adapt", "run", "pretrained"):
                    out.append(case("%s-perfect-n2-%s" % (nm, how), perfect(k, 2, 3 if not big else 4, how, fx), "n=2, error-free history of 3-4 samples", 6, time=300))
                    if big or th:
                        out.append(case("%s-perfect-n3-%s" % (nm, how), perfect(k, 3, 6, how, fx), "n=3, error-free history of 6 samples", 6, time=300))
            if k not in ("OCNLMS", "RLS"):
                for how in ("adapt", "run", "pretrained"):
                    out.append(case("%s-perfect-long-%s" % (nm, how), perfect(k, 2, 1, how, dict(fx, **({"order": 2, "ifc": 0.5} if k == "AP" else {})), 1100 if th and k != "AP" else 300), "n=2, error-free history of 301 samples, one symbolic", 6, time=300))
    for o in (1, 3, 4):
        for how in ("adapt", "run"):
            out.append(case("AP-order%d-%s" % (o, how), perfect("AP", 2 if o < 4 else 1, o + 1, how, {"order": o}), "AP order %d, %d error-free samples" % (o, o + 1), 6, time=300))
    return out
