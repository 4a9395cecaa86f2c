"""P31: the order of the features has no meaning"""
from itertools import permutations
from .common import *
from .p20 import covariance, data as pdata, decomposition
from .p21 import groups_of, lab, product, data as ldata

OUTSIDE = "more features and samples than the bounds; equal eigenvalues; rounding"
ASSUMPTIONS = ["PCA and LDA: the eigenvalues are real and pairwise different, and the within-class scatter matrix is invertible"]


def perms(n):
    """generators: neighbours swapped, and one rotation (every permutation is a product of them)"""
    ps = [tuple(range(1, n)) + (0,)]
    for i in range(n - 1):
        p = list(range(n))
        p[i], p[i + 1] = p[i + 1], p[i]
        if tuple(p) not in ps:
            ps.append(tuple(p))
    return ps


def cols(rows, p):
    return [[r[i] for i in p] for r in rows]


def filt(kind, n, N, p, online=False, order=None):
    def fn(H):
        par = draw_params(H, kind) if order is None else draw_params(H, kind, order=order)
        w = H.reals("w", n)
        f, g = make(H, kind, n, par, w), make(H, kind, n, par, [w[i] for i in p])
        x, d = H.grid("x", N, n), []
        ref = make(H, kind, n, par, w)
        for i in range(N):
            d.append(ref.predict(H.array(x[i])) + H.real("e%d" % i))
            if i < N - 1:
                ref.adapt(d[i], H.array(x[i]))
        z = cols(x, p)
        if online:
            for k in range(N):
                a, b = H.array(x[k]), H.array(z[k])
                H.eq(g.predict(b), f.predict(a), "prediction %d" % k)
                f.adapt(d[k], a)
                g.adapt(d[k], b)
        else:
            (y, e, W), (y2, e2, W2) = f.run(H.array(d), H.array(x)), g.run(H.array(d), H.array(z))
            H.eq(y2, y, "outputs")
            H.eq(e2, e, "errors")
            H.eq(W2, cols(H.snapshot(W), p), "weight record")
        v = H.snapshot(f.w)
        H.eq(g.w, [v[i] for i in p], "final weights")
    return fn


def detector(what, N, n, p, m=2, order=1, alpha=0, method=None):
    def fn(H):
        w = H.grid("w", N, n)
        e = H.reals("e", N)
        v = cols(w, p)
        D = H.pa.detection
        if what == "elbnd":
            a, b = D.ELBND(H.array(w), H.array(e), method), D.ELBND(H.array(v), H.array(e), method)
        elif what == "ese":
            a, b = [D.ESE(H.array(u), window=m, pot_method=method) for u in (w, v)]
        elif alpha:
            al = [H.real("alpha%d" % i) for i in range(alpha)]
            a, b = [D.learning_entropy(H.array(u), m=m, order=order, alpha=al) for u in (w, v)]
        else:
            a, b = [D.learning_entropy(H.array(u), m=m, order=order) for u in (w, v)]
            a = H.array(cols(H.snapshot(a), p))
        H.eq(b, a, what)
    return fn


def sensitivities(N, n, m, order, p):
    """the order of the sensitivities has no meaning either"""
    def fn(H):
        w = H.grid("w", N, n)
        al = H.reals("alpha", len(p))
        a, b = [H.pa.detection.learning_entropy(H.array(w), m=m, order=order, alpha=v) for v in (al, [al[i] for i in p])]
        H.eq(b, a, "learning entropy")
    return fn


def pca(m, n, k, p, known):
    def fn(H):
        x = pdata(H, m, n, known)
        decomposition(H, covariance(H, x))
        P = H.pa.preprocess
        a, b = P.PCA(H.array(x), n=k), P.PCA(H.array(cols(x, p)), n=k)
        H.eq(b, H.align(H.snapshot(b), H.snapshot(a)), "projection")
        H.eq(P.PCA_components(H.array(cols(x, p))), P.PCA_components(H.array(x)), "eigenvalues")
    return fn


def lda(pattern, n, k, p, known):
    def fn(H):
        x = ldata(H, len(pattern), n, known)
        decomposition(H, product(H, x, groups_of(pattern)), k)
        P, L = H.pa.preprocess, lab(H, pattern, "01", "array")
        z = cols(x, p)
        a, b = P.LDA(H.array(x), L, n=k), P.LDA(H.array(z), L, n=k)
        H.eq(b, H.align(H.snapshot(b), H.snapshot(a)), "projection")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for kind in ALL:
        sizes = [(2, 2), (3, 1)]
        if kind not in ("RLS", "AP"):
            sizes.append((3, 2))
        if kind in ("LMS", "SSLMS", "NLMS", "NSSLMS", "LLNCOSH", "GMCC", "VSLMS_MATHEWS") or th:
            sizes.append((2, 3))
            sizes.append((4, 1))
        if kind in ("RLS",):
            sizes = [(2, 1), (3, 1), (2, 2)]
        for n, N in sizes:
            for p in perms(n):
                nm = "%s-%d-%d-%s" % (kind, n, N, "".join(map(str, p)))
                out.append(case(nm, filt(kind, n, N, p), "n=%d, %d samples, order %s" % (n, N, p), 3 * n * N, time=300))
                if N < 3 and n < 4:
                    out.append(case(nm + "-online", filt(kind, n, N, p, True), "n=%d, %d single samples, order %s" % (n, N, p), 3 * n * N, time=300))
    for n in (2, 3):
        for p in perms(n):
            s = "".join(map(str, p))
            for fun in ("max", "sum"):
                out.append(case("elbnd-%s-%s" % (fun, s), detector("elbnd", 3, n, p, method=fun), "ELBND %s, 3 weight vectors, order %s" % (fun, p), 2))
            for m, order in ((1, 1), (2, 1), (2, 2), (3, 1)):
                out.append(case("le-%d-%d-%s" % (m, order, s), detector("le", 4, n, p, m, order), "learning entropy, 4 weight vectors, window %d, order %d, order of features %s" % (m, order, p), 2))
                out.append(case("le-direct-%d-%d-%s" % (m, order, s), detector("le", 4, n, p, m, order, 2), "direct learning entropy, 4 weight vectors, window %d, order %d, order of features %s" % (m, order, p), 2))
    for p in perms(3) + perms(2):
        out.append(case("le-alpha-" + "".join(map(str, p)), sensitivities(4, 2, 2, 1, p), "order of sensitivities %s" % (p,), 2))
    out.append(case("ese-sqrt", detector("ese", 3, 2, (1, 0), m=1, method="sqrt"), "ESE, 3 weight vectors of 2, window 1", 5, time=400))
    for m, n, k, known in ((3, 2, 1, 0), (4, 2, 1, 0), (4, 3, 2, 3), (4, 3, 1, 3)):
        for p in perms(n):
            out.append(case("pca-%d-%d-%d-%s" % (m, n, k, "".join(map(str, p))), pca(m, n, k, p, known), "PCA of %d rows (%d of them fixed), %d columns in order %s" % (m, known, n, p), 5, time=300))
    for pat, n, k, known in (((0, 0, 1, 1), 2, 1, 0), ((0, 1, 0, 1, 1), 2, 1, 2), ((0, 0, 1, 1, 2, 2), 2, 1, 3)):
        for p in perms(n):
            out.append(case("lda-%s-%d-%d-%s" % ("".join(map(str, pat)), n, k, "".join(map(str, p))), lda(pat, n, k, p, known), "LDA of %d rows (%d of them fixed), %d columns in order %s" % (len(pat), known, n, p), 5, time=300))
    for k in ("LMS", "NLMS", "LMF", "NLMF", "VSLMS_MATHEWS", "VSLMS_ANG", "LLNCOSH", "GMCC", "GNGD"):
        for n in (9, 33):
            p = tuple(range(1, n)) + (0,)
            out.append(case("%s-wide%d" % (k, n), filt(k, n, 1, p), "n=%d, one sample, rotation" % n, 5, time=300))
    return out
