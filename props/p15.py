"""P15: inside the stability range an update does not increase the error, nor the distance from the true weights"""
from .common import *

OUTSIDE = "more features than the bounds; RLS states after more than 2 symbolic samples; rounding at the edge of the range"
ASSUMPTIONS = ["LMS: 0 <= mu*|x|^2 <= 2; NLMS: eps > 0 and 0 <= mu*|x|^2 <= 2*(eps + |x|^2); RLS: mu > 0, eps > 0"]


def rng(H, kind, p, x, open_):
    s = H.sumsq(x)
    if kind == "LMS":
        a = p["mu"] * s
        H.assume([a > 0, a < 2] if open_ else [a >= 0, a <= 2])
    elif kind == "NLMS":
        a = p["mu"] * s
        b = 2 * (p["eps"] + s)
        H.assume([a > 0, a < b] if open_ else [p["mu"] >= 0, a <= b])


def error(kind, n, how, open_=False, hist=0, fixed=None, idle=0):
    def fn(H):
        p = draw_params(H, kind, **(fixed or {}))
        f = make(H, kind, n, p, H.reals("w", n))
        for k in range(hist):
            u = H.vec("u%d_" % k, n)
            f.adapt(f.predict(u) + H.real("g%d" % k), u)
        old = [[(k * 5 + 3 * i) % 7 - 3 for i in range(n)] for k in range(idle)]
        w0 = H.snapshot(f.w)
        if how != "run-long":
            for u in old:
                f.adapt(H.dot(w0, u), H.array(u, dtype="float64"))
            if idle:
                f.w = H.array(w0)
        x = H.reals("x", n)
        rng(H, kind, p, x, open_)
        e = H.real("e")
        d = f.predict(H.array(x)) + e
        if open_:
            H.assume(H.not_(H.same(e, 0)))
            if kind == "RLS":
                H.assume(H.sumsq(x) > 0)
        e0 = d - f.predict(H.array(x))
        if how == "adapt":
            f.adapt(d, H.array(x))
            e1 = d - f.predict(H.array(x))
        else:
            X, D = [x, H.reals("v", n)], [d, H.real("dv")]
            q = 0
            if how == "run-long":
                q, X, D = idle, old + X, [H.dot(w0, u) for u in old] + D
            y, er, h = f.run(H.array(D), H.array(X))
            H.eq(er[q], e0, "reported error")
            e1 = d - H.dot(H.snapshot(h)[q + 1], x)
        H.le(e1 * e1, e0 * e0, "squared error after the update", open_)
    return fn


def distance(kind, n, open_=False):
    def fn(H):
        p = draw_params(H, kind)
        w, v = H.reals("w", n), H.reals("v", n)
        x = H.reals("x", n)
        rng(H, kind, p, x, open_)
        e = H.dot(H.vsub(v, w), x)
        if open_:
            H.assume(H.not_(H.same(e, 0)))
        f = make(H, kind, n, p, w)
        f.adapt(H.dot(v, x), H.array(x))
        H.le(H.sumsq(H.vsub(H.snapshot(f.w), v)), H.sumsq(H.vsub(w, v)), "squared distance from the true weights", open_)
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in ("LMS", "NLMS"):
        for n in (1, 2, 3, 4, 6) + ((8, 12) if th else ()):
            for how in ("adapt", "run"):
                for o in (False, True):
                    out.append(case("%s-n%d-%s%s" % (k, n, how, "-open" if o else ""), error(k, n, how, o), "n=%d, one update from any weights" % n, n, time=300, t_bool=40))
            for o in (False, True):
                if n <= 3 or th and n <= 6:
                    out.append(case("%s-distance-n%d%s" % (k, n, "-open" if o else ""), distance(k, n, o), "n=%d, one noise-free update from any weights" % n, n, time=300, t_bool=40))
        for how in ("adapt", "run", "run-long"):
            for idle in (60, 300, 1100):
                out.append(case("%s-%s-idle%d" % (k, how, idle), error(k, 2, how, idle % 100 == 60, 0, None, idle), "n=2, one update from any weights after %d error-free samples" % idle, 5, time=300, t_bool=40))
        out.append(case(k + "-n1-hist", error(k, 1, "adapt", False, 2), "n=1, after 2 samples", 5, time=300))
    for n, hist in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1)) + (((3, 0), (1, 3)) if th else ()):
        for how in ("adapt", "run"):
            for o in (False, True):
                if o and (n, hist) == (2, 1):            # beyond the solver
                    continue
                out.append(case("RLS-n%d-h%d-%s%s" % (n, hist, how, "-open" if o else ""), error("RLS", n, how, o, hist), "n=%d, update after %d samples" % (n, hist), n + hist, time=300, t_bool=40))
    return out
