"""P18: standardisation and its inverse"""
from .common import *

OUTSIDE = "longer series than the bounds; constant series (deviation 0) when the scale is not given; rounding"
ASSUMPTIONS = ["the scale, given or computed, is not 0"]


def std_of(H, v):
    m = H.mean(v)
    s2 = H.mean([(x - m) ** 2 for x in v])
    H.assume(s2 > 0)
    return m, H.sqrt(s2)


def given(n, off, sc, shape=None, as_list=False, back=True, free=None):
    """off, sc: 'sym', 'zero', 'int', 'none' (not given), 'absent' """
    def fn(H):
        v = mostly_fixed(H, "x", n, free) if free else H.reals("x", n) if shape is None else H.grid("x", *shape)
        if free and shape:
            v = [v[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]
        flat = v if shape is None else [a for r in v for a in r]
        x = v if as_list == "list" else tuple(v) if as_list == "tuple" else H.array(v)
        args = {}
        if off in ("sym", "zero", "int", "neg"):
            args["offset"] = {"sym": lambda: H.real("o"), "zero": lambda: 0, "int": lambda: 3, "neg": lambda: -2.5}[off]()
        elif off == "none":
            args["offset"] = None
        if sc in ("sym", "int", "one"):
            s = {"sym": lambda: H.real("s"), "int": lambda: -4, "one": lambda: 1}[sc]()
            if sc == "sym":
                H.assume(H.not_(H.same(s, 0)))
            args["scale"] = s
        elif sc == "none":
            args["scale"] = None
        m = d = None
        if args.get("offset") is None:
            m = H.mean(flat)
        if args.get("scale") is None:
            _, d = std_of(H, flat)
        o = H.exact(args["offset"]) if m is None else m
        s = H.exact(args["scale"]) if d is None else d
        r = H.pa.standardize(x, **args)
        want = [(a - o) / s for a in v] if shape is None else [[(a - o) / s for a in q] for q in v]
        H.eq(r, want, "standardised")
        H.is_float(r, "standardised")
        if m is not None and d is not None:
            z = H.leaves(r)
            H.eq(H.mean(z), 0, "mean")
            H.eq(H.mean([a * a for a in z]), 1, "variance")
        if back:
            b = H.pa.standardize_back(r, o, s) if as_list != "list" else H.pa.standardize_back(xs=r, offset=o, scale=s)
            H.eq(b, v, "restored")
            H.is_float(b, "restored")
    return fn


def positional(H):
    v, o, s = H.reals("x", 3), H.real("o"), H.real("s")
    H.assume(H.not_(H.same(s, 0)))
    H.eq(H.pa.standardize(H.array(v), o, s), [(a - o) / s for a in v], "positional arguments")
    H.eq(H.pa.preprocess.standardize(H.array(v), s, scale=s), [(a - s) / s for a in v], "offset equal to the scale")
    H.eq(H.pa.preprocess.standardize_back(H.array(v), o, s), [a * s + o for a in v], "inverse, positional")


def back(n, shape=None, s0=None, o0=None, lst=False):
    """any offset and scale, 0 and 1 included"""
    def fn(H):
        v = H.reals("x", n) if shape is None else H.grid("x", *shape)
        o = H.real("o") if o0 is None else o0
        s = H.real("s") if s0 is None else s0
        r = H.pa.standardize_back(v if lst else H.array(v), offset=o, scale=s)
        want = [a * s + o for a in v] if shape is None else [[a * s + o for a in q] for q in v]
        H.eq(r, want, "restored")
        H.is_float(r, "restored")
    return fn


def roundtrip(n):
    def fn(H):
        v, o, s = H.reals("x", n), H.real("o"), H.real("s")
        H.assume(H.not_(H.same(s, 0)))
        z = H.pa.standardize(H.pa.standardize_back(H.array(v), o, s), offset=o, scale=s)
        H.eq(z, v, "standardised after restoring")
        H.eq(H.pa.standardize(H.array(v), 0, 1), v, "offset 0 and scale 1")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in (1, 2, 3, 5, 16) + ((40, 64) if th else ()):
        for lst in (False, "list"):
            nm = "n%d%s" % (n, "-list" if lst else "")
            for off in ("sym", "zero", "int", "neg"):
                for sc in ("sym", "int"):
                    out.append(case("%s-%s-%s" % (nm, off, sc), given(n, off, sc, as_list=lst), "%d values, offset and scale given" % n))
            if n > 1 and n < 17:
                for off, sc in (("none", "sym"), ("absent", "int"), ("zero", "none"), ("sym", "absent"), ("int", "none"),
                                ("none", "none"), ("absent", "absent"), ("none", "one"), ("zero", "absent")):
                    if n > 5 and sc in ("none", "absent") and off != "zero":
                        continue
                    out.append(case("%s-%s-%s" % (nm, off, sc), given(n, off, sc, as_list=lst), "%d values, not all parameters given" % n, n))
    for n in (SIZES_T if th else SIZES):
        out.append(case("long%d-given" % n, given(n, "sym", "sym", free=3), "%d values, three of them symbolic" % n, n / 300))
        if n > 1:
            out.append(case("long%d-computed" % n, given(n, "absent", "absent", free=2), "%d values, two of them symbolic" % n, n / 300))
            out.append(case("long%d-scale" % n, given(n, "none", "sym", free=2), "%d values, two of them symbolic" % n, n / 300))
    for sh in ((2, 2), (1, 3)):
        for off, sc in (("sym", "sym"), ("absent", "absent"), ("zero", "absent"), ("absent", "sym")):
            out.append(case("%dx%d-%s-%s" % (sh + (off, sc)), given(0, off, sc, shape=sh), "matrix of %dx%d values" % sh, 3))
    for sh in ((60, 2), (2, 600), (1100, 1), (130, 3), (1, 300)):
        for off, sc in (("absent", "absent"), ("none", "sym"), ("sym", "none")):
            out.append(case("%dx%d-%s-%s" % (sh + (off, sc)), given(sh[0] * sh[1], off, sc, shape=sh, free=2), "matrix of %dx%d values, two of them symbolic" % sh, 3))
    out.append(case("tuple", given(3, "sym", "sym", as_list="tuple"), "tuple of 3 values"))
    out.append(case("tuple-none", given(3, "absent", "absent", as_list="tuple"), "tuple of 3 values"))
    out.append(case("positional", positional, "3 values"))
    for n in (1, 4, 16):
        for s0 in (None, 0, 1):
            for o0 in (None, 0):
                out.append(case("back-n%d-%s-%s" % (n, s0, o0), back(n, None, s0, o0, lst=(n == 4)), "%d values" % n))
    out.append(case("back-2x3", back(0, (2, 3)), "2x3 values"))
    for n in (1, 4):
        out.append(case("roundtrip-%d" % n, roundtrip(n), "%d values" % n))
    return out
