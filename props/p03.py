"""P03: increments of the memoryless models"""
from .common import *

ASSUMPTIONS = ["eps + |x|^2 != 0 for the normalised models; GMCC: lambd > 0"]


def steps(kind, n, N, how, fixed=None, idle=0, busy=0):
    """N symbolic samples after `idle` concrete ones"""
    def fn(H):
        p = draw_params(H, kind, **(fixed(H) if fixed else {}))
        R = Rule(H, kind, n, p)
        if how == "havoc":
            f = make(H, kind, n, p, "zeros")
            for k in range(N):
                w, x, e = H.reals("w%d_" % k, n), H.reals("x%d_" % k, n), H.real("e%d" % k)
                f.w = H.array(w)
                f.adapt(e + H.dot(w, x), H.array(x))
                H.eq(f.w, H.vadd(w, R.step(e, x)), "weights after sample %d" % k)
            return
        w = H.reals("w", n) if not idle else [0] * n
        f = make(H, kind, n, p, w if not idle else "zeros")
        X, D, W = [], [], []
        for k in range(busy):               # a long history of fixed samples and errors
            x, e = [(k * 7 + i) % 5 - 2 for i in range(n)], Fr((k * 5) % 7 - 3, 4)
            X.append(x)
            D.append(e + H.dot(w, x))
            W.append(list(w))
            w = H.vadd(w, R.step(e, x))
        for k in range(idle):
            X.append([(k * 7 + i) % 5 - 2 for i in range(n)])
            D.append(0)
            W.append(list(w))
        for k in range(N):
            x, e = H.reals("x%d_" % k, n), H.real("e%d" % k)
            X.append(x)
            D.append(e + H.dot(w, x))
            W.append(list(w))
            w = H.vadd(w, R.step(e, x))
        if how == "run":
            y, err, wh = f.run(H.array(D), H.array(X))
            for k in range(busy + idle, busy + idle + N):
                H.eq(wh[k], W[k], "weight row %d" % k)
            H.eq(f.w, w, "weights after the run")
        else:
            for k in range(busy + idle):
                f.adapt(D[k], H.array(X[k]))
            for k in range(busy + idle, busy + idle + N):
                f.adapt(D[k], H.array(X[k]))
                H.eq(f.w, W[k + 1] if k + 1 < len(W) else w, "weights after sample %d" % k)
    return fn


def cases(tier):
    out = []
    th = tier == "thorough"
    for kind in MEMORYLESS:
        sgn = kind in ("SSLMS", "NSSLMS")
        out.append(case(kind + "-havoc", steps(kind, 2, 3, "havoc"), "n=2, 3 samples from arbitrary weights", 3))
        out.append(case(kind + "-one", steps(kind, 3 if sgn else 5, 1, "havoc"), "n=%d, one sample" % (3 if sgn else 5), 3))
        out.append(case(kind + "-run", steps(kind, 2 if not sgn else 1, 2, "run"), "batch run, 2 samples", 3))
        out.append(case(kind + "-adapt", steps(kind, 1, 3, "adapt"), "n=1, 3 samples", 3))
        out.append(case(kind + "-idle-run", steps(kind, 2, 1, "run", idle=5100 if th else 1100), "one sample after a long idle history", 8))
        out.append(case(kind + "-idle-adapt", steps(kind, 2, 1, "adapt", idle=5100 if th else 1100), "one sample after a long idle history", 8))
        for how in ("run", "adapt"):
            out.append(case(kind + "-busy-" + how, steps(kind, 2, 1, how, fixed=lambda H, k=kind: stable(k), busy=1100 if th else 310), "one sample after a long history of fixed samples and errors", 8))
        out.append(case(kind + "-wide", steps(kind, 40 if not sgn else 4, 1, "havoc"), "wide input, one sample", 8))
        for n in (17, 129, 300) if not sgn else ():
            out.append(case(kind + "-wide%d" % n, steps(kind, n, 1, "havoc"), "n=%d, one sample" % n, 8))
    for al in (1, 3, 4, 5, Fr(3, 2)):
        out.append(case("GMCC-alpha%s" % str(al).replace("/", "_"), steps("GMCC", 2, 2, "havoc", fixed=lambda H, al=al: {"alpha": float(al) if al != int(al) else int(al)}), "alpha=%s" % al, 3))
    out.append(case("GMCC-alpha-sym", steps("GMCC", 2, 1, "havoc", fixed=alpha_sym), "alpha > 1 symbolic", 3))
    return out


def stable(kind):
    """small steps, so that a replay in floating point follows the exact values"""
    return dict({"mu": 1 / 256}, **({"lambd": 0.5} if kind in ("GMCC", "LLNCOSH") else {}))


def alpha_sym(H):
    a = H.real("alpha")
    H.assume(a > 1)
    return {"alpha": a}
