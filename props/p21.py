"""P21: LDA"""
from .common import *
from .p20 import decomposition

OUTSIDE = "the numerical eigenvalue algorithm (numpy.linalg.eig, used through its contract); more rows, columns and classes than the bounds; equal eigenvalues; rounding"
ASSUMPTIONS = ["the within-class scatter matrix is invertible", "the eigenvalues of inv(Sw)*Sb are real and pairwise different"]


def product(H, x, groups):
    Sw, Sb = scatters(H, x, groups)
    n = len(Sw)
    D = det(H, Sw)
    if H.concrete:
        big = 1.0
        for a in range(n):
            big = big * abs(Sw[a][a])
        H.assume(abs(D) > 1e-4 * big)
    else:
        H.assume(H.not_(H.same(D, 0)))
    inv = H.inverse(Sw)
    return [[H.dot(inv[a], [Sb[c][b] for c in range(n)]) for b in range(n)] for a in range(n)]


NAMES = {"01": [0, 1, 2], "10": [1, 0, 2], "neg": [-3, 7, 2], "str": ["b", "a", "cc"], "float": [2.5, -1.5, 0.25], "bool": [True, False]}


def groups_of(pattern):
    out = {}
    for i, c in enumerate(pattern):
        out.setdefault(c, []).append(i)
    return list(out.values())


def lab(H, pattern, names, form):
    v = [NAMES[names][c] for c in pattern]
    if form == "list":
        return v
    if form == "tuple":
        return tuple(v)
    if names == "str":
        return v
    return H.array(v, dtype={"float": "float64", "bool": "bool"}.get(names, "int64"))


def data(H, m, n, known):
    x = H.grid("x", m, n)
    for i in range(known):
        x[i] = [[3, 1, -2], [-1, 4, 2], [2, -3, 1], [-4, 1, 3], [1, 1, -1], [0, 2, 5]][i % 6][:n]
    return x


def scaled(H, pattern, n, mode):
    """fixed data, of any magnitude ("all") or with classes of any width ("within")"""
    base, c = data(H, len(pattern), n, len(pattern)), [[0, 0, 0], [4, 1, -1], [-2, 5, 3]]
    s = H.real("s", positive=True)
    if mode == "all":
        return [[s * (v + 5 * c[p][j]) for j, v in enumerate(r)] for r, p in zip(base, pattern)]
    return [[s * v + c[p][j] for j, v in enumerate(r)] for r, p in zip(base, pattern)]


def mk(pattern, n, what, names="01", form="array", k=None, known=0, how="keyword", mode=None):
    def fn(H):
        m = len(pattern)
        x = data(H, m, n, known) if mode is None else scaled(H, pattern, n, mode)
        vals, vecs = decomposition(H, product(H, x, groups_of(pattern)), k if what == "lda" else None)
        L = lab(H, pattern, names, form)
        if what == "discriminants":
            r = H.pa.preprocess.LDA_discriminants(H.array(x) if how != "list" else x, L)
            H.eq(r, vals, "eigenvalues")
            return
        kk = n - 1 if k is None else k
        if k is None:
            r = H.pa.preprocess.LDA(H.array(x), L)
        elif how == "keyword":
            r = H.pa.preprocess.LDA(H.array(x), L, n=k)
        else:
            r = H.pa.preprocess.LDA(H.array(x), L, k)
        want = [[H.dot(vecs[j], row) for j in range(kk)] for row in x]
        H.eq(r, H.align(H.snapshot(r), want), "projection")
    return fn


def refused(m, n):
    def fn(H):
        k = H.int_("n", n, None)
        L = H.array([i % 2 for i in range(m)], dtype="int64")
        H.raises((ValueError, AssertionError), lambda: H.pa.preprocess.LDA(H.mat("x", m, n), L, k), "no reduction")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    pats = {"aabb": (0, 0, 1, 1), "abab": (0, 1, 0, 1), "abba": (1, 0, 0, 1), "aaabb": (0, 0, 0, 1, 1), "babaa": (1, 0, 1, 0, 0),
            "abcabc": (0, 1, 2, 0, 1, 2), "aabbc": (0, 0, 1, 1, 2), "cbaabb": (2, 1, 0, 0, 1, 1)}
    for nm, p in pats.items():
        m = len(p)
        known = m - 4
        three = 2 in p
        for names, form in (("01", "array"), ("10", "list"), ("neg", "array"), ("str", "list"), ("neg", "tuple")) + (
                () if three else (("bool", "list"), ("float", "array"))):
            if not th and nm not in ("abab", "babaa", "abcabc") and names not in ("01", "str"):
                continue
            kn = known if form == "array" and names == "01" else m - 1
            out.append(case("discriminants-%s-%s-%s" % (nm, names, form), mk(p, 2, "discriminants", names, form, known=kn, how=form),
                            "%d rows, 2 columns, classes %s, %d rows fixed" % (m, nm, kn), m, time=400))
            out.append(case("LDA-%s-%s-%s" % (nm, names, form), mk(p, 2, "lda", names, form, known=kn),
                            "%d rows, 2 columns, classes %s, %d rows fixed" % (m, nm, kn), m, time=400))
    for p, known, k in (((0, 1, 0, 1, 0), 4, 1), ((0, 1, 2, 2, 1, 0), 5, None), ((0, 1, 2, 2, 1, 0), 5, 1), ((2, 1, 0, 0, 1, 1), 5, 2)):
        nm = "".join("abc"[c] for c in p)
        out.append(case("LDA3-%s-%s" % (nm, k), mk(p, 3, "lda", k=k, known=known, how="keyword"), "%d rows, 3 columns, %d rows fixed" % (len(p), known), 20, time=600))
    out.append(case("discriminants3", mk((0, 1, 2, 1, 0, 2), 3, "discriminants", known=5), "6 rows, 3 columns, 5 rows fixed", 20, time=600))
    out.append(case("LDA-positional", mk((0, 1, 0, 1), 2, "lda", k=1, how="positional", known=2), "4 rows, 2 columns", 5, time=400))
    for sizes in ((3, 9), (12, 5), (21, 11), (33, 34), (65, 66), (130, 5), (5, 130), (101, 102), (257, 3), (600, 500), (9, 8, 7), (101, 30, 129)):
        p = [c for c, q in enumerate(sizes) for _ in range(q)]
        nm = "_".join(map(str, sizes))
        out.append(case("discriminants-long-" + nm, mk(p, 2, "discriminants", known=len(p) - 1), "classes of %s rows, one row symbolic" % nm, 9, time=400))
        out.append(case("LDA-long-" + nm, mk(p, 2, "lda", known=len(p) - 1), "classes of %s rows, one row symbolic" % nm, 9, time=400))
    for p in ((0, 1, 0, 1, 0), (0, 0, 1, 1, 1, 0), (2, 1, 0, 0, 1, 2)):
        nm = "".join("abc"[c] for c in p)
        for mode in ("all", "within"):
            for what in ("discriminants", "lda"):
                out.append(case("%s-%s-%s" % (what, mode, nm), mk(p, 2, what, mode=mode), "fixed data of any scale (%s), classes %s" % (mode, nm), 5, time=400))
    for m, n in ((4, 2), (5, 3)):
        out.append(case("refused-%dx%d" % (m, n), refused(m, n), "every n >= %d" % n, 1))
    return out
