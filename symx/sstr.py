"""Symbolic strings: fixed length, printable ASCII characters given by symbolic code points."""
from .npshim import SStrLike
from .terms import SReal, SBool, Ctx, fail, lift, const, scmp, sand, sor, snot, site


class SStr(SStrLike):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = list(cs)

    def __len__(self):
        return len(self.cs)

    def _map(self, lo, hi, d):
        return SStr([site(sand(scmp("le", const(lo, "i"), c), scmp("le", c, const(hi, "i"))), c + d, c) for c in self.cs])

    def upper(self):
        return self._map(97, 122, -32)

    def lower(self):
        return self._map(65, 90, 32)

    casefold = lower

    def eq(self, o):
        if isinstance(o, SStr):
            if len(o) != len(self):
                return False
            return sand(*[scmp("eq", a, b) for a, b in zip(self.cs, o.cs)])
        if isinstance(o, str):
            if len(o) != len(self):
                return False
            return sand(*[scmp("eq", a, const(ord(b), "i")) for a, b in zip(self.cs, o)])
        return False

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return snot(self.eq(o))

    def __hash__(self):
        """dictionary and set lookups: split on every candidate key"""
        for s in Ctx.engine.string_candidates:
            r = self.eq(s)
            if r if isinstance(r, bool) else bool(r):
                return hash(s)
        return 0x5ca1ab1e

    def strip(self, *a):
        if a or any(self._space(c) for c in (self.cs[:1] + self.cs[-1:])):
            return self._strip(a)
        return self

    def _space(self, c):
        r = scmp("eq", c, const(32, "i"))
        return r if isinstance(r, bool) else bool(r)

    def _strip(self, a):
        if a:
            fail("strip with characters")
        i, j = 0, len(self.cs)
        while i < j and self._space(self.cs[i]):
            i += 1
        while j > i and self._space(self.cs[j - 1]):
            j -= 1
        return SStr(self.cs[i:j])

    def startswith(self, p):
        return SStr(self.cs[:len(p)]).eq(p)

    def endswith(self, p):
        return SStr(self.cs[len(self.cs) - len(p):]).eq(p)

    def replace(self, a, b):
        if len(a) != 1 or len(b) > 1:
            fail("replace on a symbolic string")
        out = []
        for c in self.cs:
            r = scmp("eq", c, const(ord(a), "i"))
            if not b:
                if r if isinstance(r, bool) else bool(r):
                    continue
                out.append(c)
            else:
                out.append(site(r, const(ord(b), "i"), c))
        return SStr(out)

    def to_float(self):
        fail("number from a symbolic string")

    def __getitem__(self, i):
        return SStr(self.cs[i] if isinstance(i, slice) else [self.cs[i]])

    def __iter__(self):
        return (SStr([c]) for c in self.cs)

    def __str__(self):
        return "<symbolic string>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<symbolic string>"

    def __add__(self, o):
        if isinstance(o, str):
            return SStr(self.cs + [const(ord(c), "i") for c in o])
        return SStr(self.cs + o.cs)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        fail("str.%s of a symbolic string" % n)
