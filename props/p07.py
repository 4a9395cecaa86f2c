"""P07: OCNLMS centring.  The code deviates from the documented centring (known finding OCN, pinned by the test suite);
each case is decided against the documented behaviour first and, where that fails, against the recorded deviation."""
from .common import *

OUTSIDE = "memories longer than 6 with symbolic content, more samples than the bounds; mem=1; rounding"
ASSUMPTIONS = ["eps + |x - mx|^2 != 0"]


class Doc:
    """the documented centring: means over the most recent `mem` samples"""

    def __init__(self, H, n, p):
        self.H, self.n, self.p = H, n, {k: H.exact(v) for k, v in p.items()}
        self.xs, self.ds = [], []

    def means(self, xs, ds):
        H = self.H
        mx = [H.mean([x[i] for x in xs]) for i in range(self.n)] if xs else [0] * self.n
        md = H.mean(ds) if ds else 0
        return mx, md

    def predict(self, w, x):
        mx, md = self.means(self.xs, self.ds)
        return self.H.dot(w, self.H.vsub(x, mx)) + md

    def step(self, w, x, d, e):
        H, p = self.H, self.p
        self.xs = (self.xs + [list(x)])[-p["mem"]:]
        mx, _ = self.means(self.xs, [])
        self.ds = (self.ds + [d])[-p["mem"]:]
        c = H.vsub(x, mx)
        g = p["mu"] * e / (p["eps"] + H.sumsq(c))
        return [g * a for a in c]


class Slots(Doc):
    """the recorded deviation: two slots per sample, zero slots counted, e + (output after the input was stored) kept as target"""

    def __init__(self, H, n, p):
        super().__init__(H, n, p)
        m = p["mem"]
        self.mx, self.md = [[0] * n for _ in range(m)], [0] * m
        self.idx, self.empty = 0, True

    def read(self):
        H = self.H
        if self.empty:
            if self.idx == 0:
                return [0] * self.n, 0
            return [H.mean([x[i] for x in self.mx[:self.idx + 1]]) for i in range(self.n)], H.mean(self.md[:self.idx])
        return ([H.mean([x[i] for x in self.mx]) for i in range(self.n)],
                H.mean(self.md[:self.idx] + self.md[self.idx + 1:]))

    def advance(self):
        self.idx += 1
        if self.idx > len(self.mx) - 1:
            self.idx, self.empty = 0, False

    def predict(self, w, x):
        mx, md = self.read()
        return self.H.dot(w, self.H.vsub(x, mx)) + md

    def step(self, w, x, d, e):
        H, p = self.H, self.p
        self.advance()
        self.mx[self.idx] = list(x)
        mx, md = self.read()
        c = H.vsub(x, mx)
        y = H.dot(w, c) + md
        self.advance()
        self.md[self.idx - 1] = e + y
        g = p["mu"] * e / (p["eps"] + H.sumsq(c))
        return [g * a for a in c]


def mk(model, n, N, mem, how, havoc=True, idle=0, default=False):
    def fn(H):
        p = draw_params(H, "OCNLMS", mem=mem)
        args = dict(p)
        if default:
            args.pop("mem")
        R = model(H, n, p)
        w = H.reals("w", n) if not idle else [0] * n
        f = H.pa.filters.FilterOCNLMS(n=n, w=w, **args)
        for k in range(idle):
            x = [(k * 5 + 3 * i) % 7 - 3 for i in range(n)]
            R.step(w, x, 0, 0)
            R.ds = [0 for _ in R.ds]
            f.adapt(0, H.array(x))
        k = 0
        while k < N:
            if havoc:
                w = H.reals("w%d_" % k, n)
                f.w = H.array(w)
            m = {"adapt": 1, "run": N, "mixed": 1 if k % 3 != 1 else 2}[how]
            m = min(m, N - k)
            X, D, W, Y, E = [], [], [], [], []
            for j in range(k, k + m):
                x, e = H.reals("x%d_" % j, n), H.real("e%d" % j)
                X.append(x), E.append(e), W.append(list(w)), Y.append(R.predict(w, x))
                D.append(e + Y[-1])
                w = H.vadd(w, R.step(w, x, D[-1], e))
            if m == 1 and how != "run":
                H.eq(f.predict(H.array(X[0])), Y[0], "output of sample %d" % k)
                f.adapt(D[0], H.array(X[0]))
            else:
                y, e, h = f.run(H.array(D), H.array(X))
                H.eq(y, Y, "outputs from sample %d" % k)
                H.eq(e, E, "errors")
                H.eq(h, W, "weight rows")
            H.eq(f.w, w, "weights after sample %d" % (k + m - 1))
            k += m
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    spec = []
    for n, N, mem in ((1, 5, 2), (1, 7, 3), (2, 3, 4), (1, 6, 4), (3, 2, 3)) + (((1, 10, 3), (1, 9, 6), (2, 6, 3)) if th else ()):
        spec.append(("n%d-N%d-mem%d-adapt" % (n, N, mem), (n, N, mem, "adapt"), {}))
    spec.append(("n1-N4-mem2-run", (1, 3, 2, "run"), {}))
    spec.append(("n2-N2-mem3-run", (2, 2, 3, "run"), {}))
    spec.append(("n1-N6-mem3-mixed", (1, 6, 3, "mixed"), {}))
    spec.append(("n2-idle-mem5", (2, 3, 5, "adapt"), {"idle": 64}))
    spec.append(("n2-idle-mem100", (2, 2, 100, "adapt"), {"idle": 230, "default": True}))
    spec.append(("n1-idle-mem300", (1, 2, 300, "adapt"), {"idle": 320}))
    spec.append(("n1-idle-mem700", (1, 1, 700, "adapt"), {"idle": 360}))
    spec.append(("n1-idle-mem1000", (1, 2, 7, "adapt"), {"idle": 1100}))
    for name, a, k in spec:
        c = case(name, mk(Slots, *a, **k), "n=%d, %d samples from arbitrary weights, mem=%d" % a[:3], a[0] * a[1] * a[2], time=300)
        c["doc"] = mk(Doc, *a, **k)
        c["known"] = "OCN"
        out.append(c)
    return out
