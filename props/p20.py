"""P20: PCA"""
from .common import *

OUTSIDE = "the numerical eigenvalue algorithm (numpy.linalg.eig, used through its contract); more rows and columns than the bounds; eigenvectors of equal eigenvalues; rounding"
ASSUMPTIONS = ["for the projection the eigenvalues of the covariance matrix are pairwise different (otherwise the eigenvectors are not determined)"]


def covariance(H, x):
    m, n = len(x), len(x[0])
    mu = [H.mean([r[j] for r in x]) for j in range(n)]
    return [[H.total([(r[a] - mu[a]) * (r[b] - mu[b]) for r in x]) / (m - 1) for b in range(n)] for a in range(n)]


def decomposition(H, M, keep=None, strict=True):
    """eigenvalues in descending order with their eigenvectors (list of vectors)"""
    vals, vecs = H.eigen(M)
    n = len(vals)
    order = []
    for i in range(n):
        k = 0
        while k < len(order) and vals[order[k]] > vals[i]:
            k += 1
        order.insert(k, i)
    for a, b in list(zip(order, order[1:]))[:keep] if strict else []:
        H.assume(vals[a] > vals[b] if not H.concrete else vals[a] - vals[b] > 1e-6)
    return [vals[i] for i in order], [[vecs[j][i] for j in range(n)] for i in order]


def data(H, m, n, known):
    """m rows of n columns; all but the last `known` entries of the data are symbolic"""
    x = H.grid("x", m, n)
    for i in range(known):
        x[i] = [[3, 1, -2, 5], [-1, 4, 2, -3], [2, -3, 1, 1], [-4, 1, 3, 2]][i % 4][:n]
    return x


def cross(H, n):
    """two opposite points on every axis: the variances of the columns may coincide"""
    s = H.reals("s", n)
    return [[(sg * s[i] if j == i else H.exact(0)) for j in range(n)] for i in range(n) for sg in (1, -1)]


def scaled(H, m, n, mode):
    """fixed data of any magnitude, or fixed data with any distance of the last row"""
    s, base = H.real("s", positive=True), data(H, m, n, m)
    if mode == "all":
        return [[s * v for v in r] for r in base]
    return [[H.exact(0) + v for v in r] for r in base[:-1]] + [[s * v for v in base[-1]]]


def comps(m, n, form="array", known=0):
    def fn(H):
        x = cross(H, n) if form == "cross" else scaled(H, m, n, form) if form in ("all", "last") else data(H, m, n, known)
        vals, _ = decomposition(H, covariance(H, x), strict=False)
        r = H.pa.preprocess.PCA_components(x if form == "list" else H.array(x))
        H.eq(r, vals, "eigenvalues")
    return fn


def project(m, n, k, how="keyword", known=0, mode=None):
    def fn(H):
        x = data(H, m, n, known) if mode is None else scaled(H, m, n, mode)
        vals, vecs = decomposition(H, covariance(H, x))
        X = H.array(x)
        if how == "default":
            r = H.pa.preprocess.PCA(X)
        elif how == "keyword":
            r = H.pa.preprocess.PCA(X, n=k)
        else:
            r = H.pa.preprocess.PCA(X, k)
        want = [[H.dot(vecs[j], row) for j in range(k)] for row in x]
        H.eq(r, H.align(H.snapshot(r), want), "projection")
    return fn


def refused(m, n):
    def fn(H):
        k = H.int_("n", n, None)
        H.raises((ValueError, AssertionError), lambda: H.pa.preprocess.PCA(H.mat("x", m, n), k), "no reduction")
        H.raises((ValueError, AssertionError), lambda: H.pa.preprocess.PCA(H.mat("x", m, n), n=n), "same number of columns")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    for m, n in ((2, 2), (3, 2), (5, 2), (8, 2)) + (((16, 2),) if th else ()):
        for form in ("array", "list"):
            out.append(case("components-%dx%d-%s" % (m, n, form), comps(m, n, form), "%d rows, %d columns" % (m, n), n * m, time=400))
        for how in ("default", "keyword", "positional"):
            out.append(case("PCA-%dx%d-1-%s" % (m, n, how), project(m, n, 1, how), "%d rows, %d columns" % (m, n), n * m, time=400))
    for m, n, known in ((3, 3, 1), (4, 3, 3), (5, 4, 4)) + (((3, 3, 0), (5, 3, 2)) if th else ()):
        out.append(case("components-%dx%d-k%d" % (m, n, known), comps(m, n, "array", known), "%d rows, %d columns, %d of the rows fixed" % (m, n, known), 20 * n, time=600))
        for k in range(1, n):
            out.append(case("PCA-%dx%d-%d-k%d" % (m, n, k, known), project(m, n, k, "keyword", known), "%d rows, %d columns, %d kept, %d of the rows fixed" % (m, n, k, known), 20 * n, time=600))
        out.append(case("PCA-%dx%d-default-k%d" % (m, n, known), project(m, n, n - 1, "default", known), "%d rows, %d columns, %d of the rows fixed" % (m, n, known), 20 * n, time=600))
    for m in [6, 7] + list(range(9, 34)) + [65, 101, 130, 257, 513, 1030] + ([5003] if th else []):
        out.append(case("components-long%d" % m, comps(m, 2, "array", m - 1), "%d rows, 2 columns, one row symbolic" % m, 3, time=400))
        out.append(case("PCA-long%d" % m, project(m, 2, 1, "keyword", m - 1), "%d rows, 2 columns, one row symbolic" % m, 3, time=400))
    for n in (2, 3):
        out.append(case("components-cross-%d" % n, comps(2 * n, n, "cross"), "two opposite points on each of %d axes (variances may be equal)" % n, 20, time=400))
    for m, n in ((3, 2), (4, 3), (2, 1)):
        out.append(case("refused-%dx%d" % (m, n), refused(m, n), "every n >= %d" % n, 1))
    for mode in ("all", "last"):
        for m, n in ((4, 2), (5, 3), (9, 2)):
            out.append(case("components-%s-%dx%d" % (mode, m, n), comps(m, n, mode), "%d rows, %d columns, fixed data of any scale (%s)" % (m, n, mode), 5, time=400))
            out.append(case("PCA-%s-%dx%d" % (mode, m, n), project(m, n, n - 1, mode=mode), "%d rows, %d columns, fixed data of any scale (%s)" % (m, n, mode), 5, time=400))
    return out
