"""True, false and undecidable statements about symx/selfpkg: the machinery has to tell them apart."""
import os
import threading

from . import engine, harness, loader, solve

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "selfpkg")


def same(H, got, want, label):
    for i, (a, b) in enumerate(zip(got, want)):
        H.eq(a, b, "%s[%d]" % (label, i))
    H.check(len(got) == len(want), label + " length")


def sgn(H, z):
    return H.ite(z > 0, 1, H.ite(z < 0, -1, 0)) if hasattr(H, "ite") else H.sign(z)


def t_abs(H):
    x = H.real("x")
    r = H.pa.magnitude(x)
    H.eq(r * r, x * x, "square")
    H.le(0, r, "not negative")


def t_signs(H):
    x = H.reals("x", 9)
    r = H.pa.signs(H.array(x))
    for v, s in zip(x, r):
        H.eq(v * s, abs(v), "sign times value")


def f_signs(H):
    x = H.reals("x", 2)
    r = H.pa.signs_wrong(H.array(x))
    for v, s in zip(x, r):
        H.eq(abs(v) * s * s, abs(v) * abs(s), "fine")
        H.check(v * v > 0 or s * s == 0, "sign of zero")


def t_tanh(H):
    z = H.real("z")
    H.eq(H.pa.tanh(z), H.tanh(z), "tanh")


def f_tanh(H):
    z = H.real("z")
    H.eq(H.pa.tanh_wrong(z), H.tanh(z), "tanh")


def t_decibel(H):
    x = [H.positive("a"), H.positive("b")]
    H.eq(H.pa.decibel(x), 20 * H.log10(x[0] * x[1]), "sum of logarithms")


def t_root(H):
    x = H.real("x")
    H.eq(H.pa.root(x), abs(x + 1), "root")


def f_root(H):
    x = H.real("x")
    H.eq(H.pa.root(x), x + 1, "root")


def t_solve(H):
    a, b, c, p, q = H.reals("m", 5)
    H.assume(a * c - b * b > 0)
    r = H.pa.solve(H.array([[a, b], [b, c]]), H.array([p, q]))
    H.eq(a * r[0] + b * r[1], p, "first row")
    H.eq(b * r[0] + c * r[1], q, "second row")


def t_windows(H):
    x = H.reals("x", 5)
    same(H, H.pa.windows(H.array(x), 2), [H.mean(x[i:i + 2]) for i in range(4)], "means")


def f_windows(H):
    x = H.reals("x", 5)
    same(H, H.pa.windows_wrong(H.array(x), 2), [H.mean(x[i:i + 2]) for i in range(4)], "means")


def f_rare(H):
    x = H.real("x")
    H.eq(H.pa.rare(x), x, "identity")


def f_aliased(H):
    x = H.reals("x", 2)
    a = H.array(x)
    H.pa.aliased(a)
    same(H, a, x, "argument")


def u_spectrum(H):
    x = H.reals("x", 2)
    H.eq(H.pa.spectrum(H.array(x))[0], x[0] + x[1], "sum")


def verdict(name, fn):
    eng = engine.explore(name, fn, {"time": 60}, lambda: loader.Loader(ROOT),
                         lambda env, choices: harness.run_concrete(fn, env, choices, ROOT))
    if eng.violation:
        return "f"
    return "u" if eng.errors or eng.open or eng.cut else "t"


def run():
    bad = []
    n = 0
    for name, fn in sorted(globals().items()):
        if name[:2] in ("t_", "f_", "u_") and callable(fn):
            n += 1
            v = verdict(name, fn)
            if v != name[0]:
                bad.append("%s: %s" % (name, v))
    # constants are bounded the same way in every thread (the decimal context is a matter of the thread)
    def bounds():
        from fractions import Fraction
        import decimal
        for q in (2, 3, 7, 10**40 + 1, 3 * 10**9):
            a, b = solve.enclosure(lambda x: (decimal.Decimal(x) / 3).sqrt(), q)
            if not (a >= 0 and a * a < Fraction(q, 3) < b * b and b - a < Fraction(1, 10**20)):
                bad.append("bounds of a constant: %s" % q)
    t = threading.Thread(target=bounds)
    t.start()
    t.join()
    return n + 1, bad
