"""State merging at simple conditionals (used when a case has too many paths).

`if c: S else: T` with S, T made of plain assignments is rewritten so that, in merging mode and for a symbolic c, both
branches are executed on the same state and every target becomes ite(c, S's value, T's value); likewise for returns,
conditional expressions and boolean operators.  Whatever cannot be merged (raises, forks inside, divides, leaves objects
other than numbers) is executed by forking as usual.  Outside merging mode the rewritten code does what was written."""
import ast
import copy

import numpy as np

from . import terms
from .arr import SArr, elementwise
from .terms import Impossible, SReal, SBool, Ctx, site, sand, sor, snot, NUM

_PURE_CALLS = {"abs", "min", "max", "len", "float", "int", "bool", "sum", "pow", "round", "range", "zip", "enumerate", "sorted"}


def _pure(e):
    """expression without side effects (as far as one can see)"""
    for n in ast.walk(e):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and (f.id in _PURE_CALLS or f.id.startswith("__symx")):
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy", "math"):
                continue
            return False
    return True


def _target_ok(t):
    if isinstance(t, ast.Name):
        return True
    if isinstance(t, ast.Attribute):
        return isinstance(t.value, ast.Name)
    if isinstance(t, ast.Subscript):
        return isinstance(t.value, (ast.Name, ast.Attribute)) and _pure(t.value) and _pure(t.slice)
    return False


def _fresh(e):
    """does this expression make a new array (if it makes one)?"""
    return isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare, ast.Constant)) or isinstance(e, ast.Call)


def _targets(body, out, depth=0):
    """targets assigned in a branch; None when it holds anything else"""
    for s in body:
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and _target_ok(s.targets[0]) and _pure(s.value):
            t = s.targets[0]
            _, aug, fresh = out.get(ast.dump(t), (t, False, True))
            out[ast.dump(t)] = (t, aug, fresh and (_fresh(s.value) or isinstance(t, ast.Subscript)))
        elif isinstance(s, ast.AugAssign) and _target_ok(s.target) and _pure(s.value):
            out[ast.dump(s.target)] = (s.target, True, out.get(ast.dump(s.target), (0, 0, True))[2])
        elif isinstance(s, ast.If) and depth < 4 and _pure(s.test):
            if _targets(s.body, out, depth + 1) is None or _targets(s.orelse, out, depth + 1) is None:
                return None
        else:
            return None
    return out


def _load(t):
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def _lam(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


def _call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.depth = 0                 # inside a function?
        self.klass = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_Lambda(self, n):
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.depth and _pure(n.body) and _pure(n.orelse):
            return ast.copy_location(_call("__symx_ite__", n.test, _lam(n.body), _lam(n.orelse)), n)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.depth and all(_pure(v) for v in n.values):
            f = "__symx_and__" if isinstance(n.op, ast.And) else "__symx_or__"
            return ast.copy_location(_call(f, *[_lam(v) for v in n.values]), n)
        return n

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and self.depth:
                setattr(node, f, self.returns(b))
        return super().generic_visit(node)

    def returns(self, body):
        """if c: return a / return b   ->   return ite(c, a, b)"""
        body = list(body)
        for i in range(len(body) - 1, -1, -1):
            s = body[i]
            if not isinstance(s, ast.If):
                continue
            a = self._ret(s.body)
            b = self._ret(s.orelse) if s.orelse else (self._ret(body[i + 1:]) if i + 1 < len(body) else None)
            if a is None or b is None:
                continue
            r = ast.copy_location(ast.Return(ast.copy_location(_call("__symx_ite__", s.test, _lam(a), _lam(b)), s)), s)
            body = body[:i] + [r]
        return body

    def _ret(self, body):
        if not body:
            return None
        body = self.returns(body)
        if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and _pure(body[0].value):
            return body[0].value
        return None

    def visit_If(self, n):
        ts = _targets(n.body, {})
        ts = _targets(n.orelse, ts) if ts is not None else None
        self.generic_visit(n)
        if not self.depth or not ts or len(ts) > 12:
            return n
        self.n += 1
        c, m = "__symx_c%d" % self.n, "__symx_m%d" % self.n
        names = [t for t, _, _ in ts.values()]
        augs = [a for _, a, _ in ts.values()]
        fresh = [f for _, _, f in ts.values()]

        def read():
            return ast.List([_lam(_load(t)) for t in names], ast.Load())

        def write(attr):
            return [ast.Assign([copy.deepcopy(t)], ast.Subscript(ast.Attribute(ast.Name(m, ast.Load()), attr, ast.Load()),
                                                                 ast.Constant(i), ast.Load())) for i, t in enumerate(names)]

        def meth(name, *args):
            return ast.Call(ast.Attribute(ast.Name(m, ast.Load()), name, ast.Load()), list(args), [])
        body = copy.deepcopy(n.body)
        orelse = copy.deepcopy(n.orelse) or [ast.Pass()]
        merged = ast.Try(
            body=[ast.Expr(meth("save", read(), ast.Constant(tuple(augs)), ast.Constant(tuple(fresh))))] + copy.deepcopy(n.body)
            + [ast.Expr(meth("take", ast.Constant("a"), read()))] + write("old") + copy.deepcopy(orelse)
            + [ast.Expr(meth("take", ast.Constant("b"), read())), ast.Expr(meth("join"))] + write("new"),
            handlers=[ast.ExceptHandler(ast.Name("BaseException", ast.Load()), m + "e",
                                        [ast.Expr(meth("failed", ast.Name(m + "e", ast.Load())))] +
                                        [ast.If(ast.Attribute(ast.Name(m, ast.Load()), "saved", ast.Load()), write("old"), [])])],
            orelse=[], finalbody=[])
        plain = ast.If(ast.Name(c, ast.Load()), body, n.orelse)
        out = [ast.Assign([ast.Name(c, ast.Store())], n.test),
               ast.Assign([ast.Name(m, ast.Store())], _call("__symx_begin__", ast.Name(c, ast.Load()))),
               ast.If(ast.Name(m, ast.Load()), [merged], []),
               ast.If(ast.UnaryOp(ast.Not(), _call("__symx_done__", ast.Name(m, ast.Load()))), [plain], [])]
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out


# ------------------------------------------------------------------ run time
class _Missing:
    pass


MISSING = _Missing()


def _symbolic(c):
    if isinstance(c, SArr):
        if c.a.size != 1:
            return None
        c = c.a.ravel()[0]
    return c if isinstance(c, SBool) else None


def _merging(c):
    """the condition if it is to be merged"""
    e = Ctx.engine
    if e is None:
        return None
    b = _symbolic(c)
    if b is None or b.key() in e.known:
        return None
    e.merge_sites += 1
    return b if e.merging else None


def _mark(e):
    return len(e.dens), len(e.doms), e.no_fork, _rest(e)


def _rest(e):
    return len(e.undefs), len(e.obls), len(e.seeds), sum(e.streams.values()), e.nperm


def _reset(e, mk):
    del e.dens[mk[0]:]
    del e.doms[mk[1]:]
    e.no_fork = mk[2]


def join(c, a, b):
    if a is b:
        return a
    if isinstance(a, (bool, np.bool_, SBool)) and isinstance(b, (bool, np.bool_, SBool)):
        return sor(sand(c, a), sand(snot(c), b))
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.a.shape != b.a.shape or a.dt != b.dt or a.a.ndim == 0:
            raise Impossible
        if a.dt.kind not in "fiu":
            raise Impossible
        return elementwise(lambda x, y: site(c, x, y), [a, b], a.dt)
    num = (SReal,) + NUM
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, (bool, np.bool_)) and not isinstance(b, (bool, np.bool_)):
        if terms.nonfinite(a) or terms.nonfinite(b):
            raise Impossible
        return site(c, a, b)
    raise Impossible


class Merge:
    def __init__(self, c):
        self.c = c
        self.e = Ctx.engine
        self.mk = _mark(self.e)
        self.saved = False
        self.done = False
        self.e.no_fork = True

    def _read(self, fs):
        out = []
        for f in fs:
            try:
                v = f()
            except (NameError, AttributeError, UnboundLocalError):
                v = MISSING
            out.append(v.copy() if isinstance(v, SArr) else v)
        return out

    def save(self, fs, augs, fresh):
        self.fresh = fresh
        raw = []
        for f in fs:
            try:
                raw.append(f())
            except (NameError, AttributeError, UnboundLocalError):
                raw.append(MISSING)
        for v, aug in zip(raw, augs):
            if isinstance(v, SArr) and aug or isinstance(v, (list, dict, set)):
                raise Impossible
        self.old = [v.copy() if isinstance(v, SArr) and v.a.ndim and _is_view(v) else v for v in raw]
        self.saved = True

    def take(self, which, fs):
        setattr(self, which, self._read(fs))

    def join(self):
        if _mark(self.e)[:2] != self.mk[:2] or _rest(self.e) != self.mk[3]:
            raise Impossible
        for x, y, f in zip(self.a, self.b, self.fresh):
            if (isinstance(x, SArr) or isinstance(y, SArr)) and not f:
                raise Impossible            # perhaps another name of an existing array
        self.new = [join(self.c, x, y) for x, y in zip(self.a, self.b)]
        self.e.no_fork = self.mk[2]
        self.done = True

    def failed(self, exc):
        _reset(self.e, self.mk)
        self.done = False
        if self.mk[2]:
            # an enclosing conditional is being merged: it has to fork
            raise Impossible
        if not isinstance(exc, Exception) and not isinstance(exc, (terms.PathEnd, terms.Unsupported)):
            raise exc


def _is_view(v):
    return v.a.base is not None


def begin(c):
    b = _merging(c)
    return Merge(b) if b is not None else None


def done(m):
    return m is not None and m.done


def _both(c, fa, fb):
    """values of both alternatives, or None"""
    e = Ctx.engine
    mk = _mark(e)
    e.no_fork = True
    try:
        a, b = fa(), fb()
        if _mark(e)[:2] != mk[:2] or _rest(e) != mk[3]:
            raise Impossible
        r = join(c, a, b)
        e.no_fork = mk[2]
        return (r,)
    except (Exception, terms.PathEnd, terms.Unsupported):
        _reset(e, mk)
        if mk[2]:
            raise Impossible
        return None


def ite(c, fa, fb):
    b = _merging(c)
    if b is not None:
        r = _both(b, fa, fb)
        if r is not None:
            return r[0]
    return fa() if c else fb()


def _bool_op(fs, conj):
    v = None
    for i, f in enumerate(fs):
        v = f()
        b = _merging(v)
        if b is not None and i + 1 < len(fs):
            def rest():
                r = _bool_op(fs[i + 1:], conj)
                if not isinstance(r, (bool, np.bool_, SBool)):
                    raise Impossible
                return r
            r = _both(b, rest, lambda: False) if conj else _both(b, lambda: True, rest)
            if r is not None:
                return r[0]
        if i + 1 < len(fs) and bool(v) != conj:
            return v
    return v


def and_(*fs):
    return _bool_op(fs, True)


def or_(*fs):
    return _bool_op(fs, False)


NAMES = {"__symx_begin__": begin, "__symx_done__": done, "__symx_ite__": ite, "__symx_and__": and_, "__symx_or__": or_}
