"""Specifications shared by the property harnesses (plain arithmetic on scalars, no numpy).

Everything here is written from the property statements; H is the harness interface (symx.harness)."""
from fractions import Fraction as Fr

# kind, class, parameters in order with the way they are drawn
PARAMS = {
    "LMS": ["mu"], "LMF": ["mu"], "SSLMS": ["mu"],
    "NLMS": ["mu", "eps"], "NLMF": ["mu", "eps"], "NSSLMS": ["mu", "eps"],
    "LLNCOSH": ["mu", "lambd"], "GMCC": ["mu", "lambd", "alpha"],
    "GNGD": ["mu", "eps", "ro"], "VSLMS_ANG": ["mu", "ro", "a"],
    "VSLMS_BENVENISTE": ["mu", "ro"], "VSLMS_MATHEWS": ["mu", "ro"],
    "RLS": ["mu", "eps"], "AP": ["mu", "order", "ifc"], "OCNLMS": ["mu", "eps", "mem"],
}
CLASS = {
    "LMS": "FilterLMS", "LMF": "FilterLMF", "SSLMS": "FilterSSLMS", "NLMS": "FilterNLMS", "NLMF": "FilterNLMF",
    "NSSLMS": "FilterNSSLMS", "LLNCOSH": "FilterLlncosh", "GMCC": "FilterGMCC", "GNGD": "FilterGNGD",
    "VSLMS_ANG": "FilterVSLMS_Ang", "VSLMS_BENVENISTE": "FilterVSLMS_Benveniste",
    "VSLMS_MATHEWS": "FilterVSLMS_Mathews", "RLS": "FilterRLS", "AP": "FilterAP", "OCNLMS": "FilterOCNLMS",
}
ALL = list(PARAMS)
MEMORYLESS = ["LMS", "LMF", "SSLMS", "NLMS", "NLMF", "NSSLMS", "LLNCOSH", "GMCC"]
RECURSIVE = ["GNGD", "VSLMS_ANG", "VSLMS_BENVENISTE", "VSLMS_MATHEWS"]
PLAIN = MEMORYLESS + RECURSIVE + ["RLS"]           # output is <w, x> and the rule sees one sample


def draw_params(H, kind, tag="", **fixed):
    """symbolic parameters of a model"""
    out = {}
    for p in PARAMS[kind]:
        if p in fixed:
            out[p] = fixed[p]
        elif p == "order":
            out[p] = 2
        elif p == "mem":
            out[p] = 3
        elif p == "alpha":
            out[p] = 2
        elif p == "eps" or p == "ifc" or (p == "lambd" and kind == "GMCC") or (p == "mu" and kind == "RLS"):
            out[p] = H.positive(p + tag)
        else:
            out[p] = H.real(p + tag)
    return out


def make(H, kind, n, params, w):
    return getattr(H.pa.filters, CLASS[kind])(n=n, w=w, **params)


class Rule:
    """weight increments of a model, from its published recursion; one object per filter life"""

    def __init__(self, H, kind, n, p):
        p = {k: H.exact(v) for k, v in p.items()}
        self.H, self.kind, self.n, self.p = H, kind, n, p
        self.le = 0
        self.lx = [0] * n
        self.phi = [0] * n
        self.mu = p.get("mu")
        self.eps = p.get("eps")
        self.started = False
        if kind == "RLS":
            self.hist = []

    def step(self, e, x):
        """increment for sample x with error e"""
        H, k, p = self.H, self.kind, self.p
        mu = p["mu"]
        if k == "LMS":
            c = mu * e
        elif k == "LMF":
            c = mu * e ** 3
        elif k == "NLMS":
            c = mu * e / (p["eps"] + H.sumsq(x))
        elif k == "NLMF":
            c = mu * e ** 3 / (p["eps"] + H.sumsq(x))
        elif k == "SSLMS":
            return [mu * H.sign(e) * H.sign(a) for a in x]
        elif k == "NSSLMS":
            c = mu * H.sign(e) / (p["eps"] + H.sumsq(x))
            return [c * H.sign(a) for a in x]
        elif k == "LLNCOSH":
            c = mu * H.tanh(p["lambd"] * e)
        elif k == "GMCC":
            a = H.abs(e)
            al, la = p["alpha"], p["lambd"]
            c = mu * la * al * H.exp(-la * H.power(a, al)) * H.power(a, al - 1) * H.sign(e)
        elif k == "VSLMS_MATHEWS":
            if self.started:
                self.mu = self.mu + p["ro"] * e * self.le * H.dot(self.lx, x)
            self.remember(e, x)
            c = self.mu * e
        elif k in ("VSLMS_ANG", "VSLMS_BENVENISTE"):
            if self.started:
                if k == "VSLMS_ANG":
                    phi = [p["a"] * f + self.le * a for f, a in zip(self.phi, self.lx)]
                else:
                    s = H.dot(self.lx, self.phi)
                    phi = [f - self.mu * a * s + self.le * a for f, a in zip(self.phi, self.lx)]
                self.mu = self.mu + p["ro"] * e * H.dot(self.lx, phi)
                self.phi = phi
            self.remember(e, x)
            c = self.mu * e
        elif k == "GNGD":
            if self.started:
                den = H.sumsq(self.lx) + self.eps
                self.eps = self.eps - p["ro"] * mu * e * self.le * H.dot(x, self.lx) / (den * den)
            self.remember(e, x)
            c = mu * e / (self.eps + H.sumsq(x))
        else:
            raise KeyError(k)
        return [c * a for a in x]

    def remember(self, e, x):
        self.le, self.lx, self.started = e, list(x), True


SIZES = list(range(1, 41)) + [50, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1001, 1024, 1025, 2100]
SIZES_T = SIZES + [n for n in range(41, 140) if n not in SIZES] + [4096, 5003, 10007]


def mostly_fixed(H, name, n, free=3, scale=1):
    """n values, some of them symbolic"""
    v = [Fr((k * 7 + 3) % 11 - 5, 2) * scale for k in range(n)]
    for k in sorted({0, n // 2, n - 1})[:free]:
        v[k] = H.real("%s%d" % (name, k))
    return v


def case(name, fn, bounds, cost=1, **opts):
    return {"name": name, "fn": fn, "bounds": bounds, "cost": cost, "opts": opts}


def ap_step(H, p, n, xs, ds, w):
    """increment of the AP filter; xs, ds newest first"""
    o = len(xs)
    p = {k: H.exact(v) for k, v in p.items()}
    G = [[H.dot(xs[i], xs[j]) + (p["ifc"] if i == j else 0) for j in range(o)] for i in range(o)]
    e = [ds[j] - H.dot(w, xs[j]) for j in range(o)]
    inv = H.inverse(G)
    g = [H.dot(inv[i], e) for i in range(o)]
    return [p["mu"] * H.total([xs[j][i] * g[j] for j in range(o)]) for i in range(n)]


def det(H, M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    t = None
    for j in range(n):
        m = M[0][j] * det(H, [r[:j] + r[j + 1:] for r in M[1:]])
        t = m if t is None else (t + m if j % 2 == 0 else t - m)
    return t


def scatters(H, x, groups):
    """within- and between-class scatter matrices; groups: lists of row numbers"""
    n = len(x[0])
    tot = [H.mean([r[j] for r in x]) for j in range(n)]
    Sw = [[0] * n for _ in range(n)]
    Sb = [[0] * n for _ in range(n)]
    for g in groups:
        mu = [H.mean([x[i][j] for i in g]) for j in range(n)]
        for a in range(n):
            for b in range(n):
                for i in g:
                    Sw[a][b] = Sw[a][b] + (x[i][a] - mu[a]) * (x[i][b] - mu[b])
                Sb[a][b] = Sb[a][b] + (mu[a] - tot[a]) * (mu[b] - tot[b]) * len(g)
    return Sw, Sb
