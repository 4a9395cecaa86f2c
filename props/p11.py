"""P11: initial weights"""
from .common import *

OUTSIDE = "filter sizes above the bounds; texts longer than 8 characters"


def given(kind, n, form, dtype):
    def fn(H):
        p = draw_params(H, kind)
        w = H.ints("w", n) if dtype == "int" else H.reals("w", n)
        if form == "list":
            arg = list(w)
        elif form == "tuple":
            arg = tuple(w)
        else:
            arg = H.array(w, dtype="int64" if dtype == "int" else "float64")
        f = make(H, kind, n, p, arg)
        H.eq(f.w, w, "weights")
        H.is_float(f.w, "weights")
        if form == "array":
            H.fill(arg, [1] * n)
            H.eq(f.w, w, "weights after the array was overwritten")
            g = make(H, kind, n, p, H.array(w))
            g.w[...] = H.array([2] * n)
            H.eq(f.w, w, "weights after those of another filter changed")
        y = f.predict(H.array([1] * n))
        H.eq(y, H.total(w), "prediction with these weights") if kind != "OCNLMS" else None
    return fn


def drawn(kind, n):
    def fn(H):
        p = draw_params(H, kind)
        f = make(H, kind, n, p, "zeros")
        H.eq(f.w, [0] * n, "zeros")
        H.is_float(f.w, "zeros")
        g = make(H, kind, n, p, "random")
        H.eq(g.w, [H.gauss(i) * H.exact(0.5) for i in range(n)], "random: the draws of the global generator times 0.5")
        H.is_float(g.w, "random")
        h = getattr(H.pa.filters, CLASS[kind])(n, **p)
        H.eq(h.w, [H.gauss(n + i) * H.exact(0.5) for i in range(n)], "default: the next draws")
        H.eq(g.w, [H.gauss(i) * H.exact(0.5) for i in range(n)], "random: later")
        z = make(H, kind, n, p, "zeros")
        z.adapt(H.real("d"), H.vec("x", n))
        z2 = make(H, kind, n, p, "zeros")
        H.eq(z2.w, [0] * n, "zeros again")
        r = make(H, kind, n, p, "random")
        H.eq(r.w, [H.gauss(2 * n + i) * H.exact(0.5) for i in range(n)], "random again")
    return fn


def refused(kind, n, what):
    def fn(H):
        p = draw_params(H, kind)
        mk = lambda w: (lambda: make(H, kind, n, p, w))
        if what.startswith("len"):
            m = int(what[3:])
            H.raises(ValueError, mk(H.reals("w", m)), "list of another length")
            H.raises(ValueError, mk(H.array(H.reals("w", m), (m,))), "array of another length")
            H.raises(ValueError, mk(tuple(H.reals("w", m))), "tuple of another length")
        elif what.startswith("text"):
            m = int(what[4:])
            s = H.string("s", m)
            H.assume(H.not_(H.string_eq(s, "random")))
            H.assume(H.not_(H.string_eq(s, "zeros")))
            H.raises(ValueError, mk(s), "other text")
        elif what == "content":
            for bad in (["a"] + [1.] * (n - 1), [1.] * (n - 1) + ["x1"], [1.] * (n - 1) + [[1., 2.]] if n > 1 else ["q"]):
                H.raises(ValueError, mk(bad), "non-numeric content")
            H.raises(ValueError, mk(""), "empty text")
            H.raises(ValueError, mk([]), "empty list")
    return fn


def cases(tier):
    out = []
    for k in ALL:
        for n in (1, 2, 4) + ((20,) if tier == "thorough" or k in ("LMS", "AP", "RLS") else ()):
            for form in ("list", "tuple", "array"):
                for dt in ("int", "float"):
                    out.append(case("%s-n%d-%s-%s" % (k, n, form, dt), given(k, n, form, dt), "n=%d symbolic weights" % n))
            out.append(case("%s-n%d-drawn" % (k, n), drawn(k, n), "n=%d symbolic draws" % n))
        for n in (70, 150, 1100) if k in ("LMS", "NLMS", "SSLMS", "GMCC") else (150,) if k != "RLS" else ():
            out.append(case("%s-n%d-drawn" % (k, n), drawn(k, n), "n=%d symbolic draws" % n, 4))
        for w in ("len0", "len1", "len4", "len6", "text5", "content") + (("text6", "text7", "text1", "text8", "len12", "len2") if k in ("LMS", "AP", "OCNLMS", "RLS") or tier == "thorough" else ()):
            n = 3
            out.append(case("%s-refused-%s" % (k, w), refused(k, n, w), "n=3; " + w))
        out.append(case("%s-refused-n1" % k, refused(k, 1, "len3"), "n=1; 3 weights"))
        out.append(case("%s-refused-n1c" % k, refused(k, 1, "content"), "n=1; content"))
    return out
