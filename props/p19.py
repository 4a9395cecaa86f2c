"""P19: error measures"""
from .common import *

OUTSIDE = "longer series than the bounds; logSE of an error of exactly 0; rounding"
ASSUMPTIONS = ["logSE: no error is 0"]


def form(H, how, v):
    return {"array": H.array, "list": list, "tuple": tuple}[how](v)


def measure(n, two, how, second=None, free=None):
    def fn(H):
        a = mostly_fixed(H, "a", n, free) if free else H.reals("a", n)
        b = None
        if two:
            b = [x + 1 for x in mostly_fixed(H, "b", n, 1)] if free else H.reals("b", n) if second is None else [second] * n
        e = a if b is None else H.vsub(a, b)
        A = form(H, how[0], a)
        args = () if b is None else (form(H, how[1], b),)
        m = H.pa.misc
        mse, mae = H.total([x * x for x in e]) / n, H.total([H.abs(x) for x in e]) / n
        rmse = H.sqrt(mse)
        H.eq(m.MSE(A, *args), mse, "MSE")
        H.eq(m.MAE(A, *args), mae, "MAE")
        H.eq(m.RMSE(A, *args), rmse, "RMSE")
        kw = {} if b is None else {"x2": args[0]}
        for name, v in (("MSE", mse), ("MAE", mae), ("RMSE", rmse)):
            H.eq(m.get_mean_error(A, *args, function=name), v, "get_mean_error " + name)
            H.eq(m.get_mean_error(x1=A, function=name, **kw), v, "get_mean_error with keywords " + name)
            if b is not None:
                H.eq(m.get_mean_error(A, args[0], name), v, "get_mean_error positional " + name)
            H.eq(getattr(m, name)(x1=A, **kw), v, name + " with keywords")
        H.eq(m.get_mean_error(A, *args), mse, "default measure")
    return fn


def logse(n, two, how, second=None, free=None):
    def fn(H):
        a = mostly_fixed(H, "a", n, free, 5) if free else H.reals("a", n)
        b = None
        if two:
            b = [x + Fr(1, 4) for x in mostly_fixed(H, "b", n, 1)] if free else H.reals("b", n) if second is None else [second] * n
        e = a if b is None else H.vsub(a, b)
        for x in e:
            H.assume(H.not_(H.same(x, 0)))
        args = () if b is None else (form(H, how[1], b),)
        r = H.pa.misc.logSE(form(H, how[0], a), *args)
        H.eq(r, [10 * H.log10(x * x) for x in e], "logSE")
        H.eq(H.pa.misc.logSE(form(H, how[0], a), **({"x2": args[0]} if args else {})), [10 * H.log10(x * x) for x in e], "logSE with keywords")
    return fn


def cases(tier):
    th = tier == "thorough"
    out = []
    forms = (("array", "array"), ("list", "list"), ("array", "list"), ("tuple", "array"), ("list", "tuple"))
    for n in (1, 2, 3, 6, 12) + ((30,) if th else ()):
        for how in forms:
            nm = "%d-%s-%s" % (n, how[0], how[1])
            out.append(case("two-" + nm, measure(n, True, how), "two series of %d values" % n, n, time=300))
            out.append(case("logSE-two-" + nm, logse(n, True, how), "two series of %d values" % n, n, time=300))
            if how[0] == how[1]:
                out.append(case("one-" + nm, measure(n, False, how), "one series of %d values" % n, n, time=300))
                out.append(case("logSE-one-" + nm, logse(n, False, how), "one series of %d values" % n, n, time=300))
            for s in (-1, 0, 1, -1.0):
                if n in (1, 3):
                    out.append(case("two-%s-second%s" % (nm, s), measure(n, True, how, s), "second series constant %s" % s, n, time=300))
                    out.append(case("logSE-%s-second%s" % (nm, s), logse(n, True, how, s), "second series constant %s" % s, n, time=300))
    for n in (SIZES_T if th else SIZES):
        out.append(case("long%d-two" % n, measure(n, True, ("array", "list"), free=3), "two series of %d values, four of them symbolic" % n, n / 300, time=300))
        out.append(case("long%d-one" % n, measure(n, False, ("array", "array"), free=3), "one series of %d values, three of them symbolic" % n, n / 300, time=300))
        out.append(case("long%d-logSE" % n, logse(n, True, ("array", "array"), free=3), "two series of %d values, four of them symbolic" % n, n / 300, time=300))
    return out
