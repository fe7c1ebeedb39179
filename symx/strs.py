"""Symbolic text: a z3 string behind the interface of str.  What is not followed raises Unsupported (the path is then
replayed on real strings instead)."""
import z3

from symx import core
from symx.core import SymBool, SymInt, Unsupported


def expr(x):
    if type(x) is SymStr:
        return x.e
    if isinstance(x, str):
        return z3.StringVal(x)
    return None


class SymStr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _c(self, e):
        s = z3.simplify(e)
        return True if z3.is_true(s) else False if z3.is_false(s) else SymBool(e)

    def __eq__(self, o):
        e = expr(o)
        return NotImplemented if e is None else self._c(self.e == e)

    def __ne__(self, o):
        e = expr(o)
        return NotImplemented if e is None else self._c(self.e != e)

    def __lt__(self, o):
        return self._c(self.e < expr(o))

    def __le__(self, o):
        return self._c(self.e <= expr(o))

    def __gt__(self, o):
        return self._c(expr(o) < self.e)

    def __ge__(self, o):
        return self._c(expr(o) <= self.e)

    def __bool__(self):
        return bool(self.__sx_len__() > 0)

    def __sx_len__(self):
        return SymInt(z3.Length(self.e))

    def __len__(self):
        return int(self.__sx_len__())

    def __contains__(self, x):
        return bool(self._c(z3.Contains(self.e, expr(x))))

    def startswith(self, p, start=0):
        if start:
            raise Unsupported("startswith from an offset")
        ps = p if isinstance(p, tuple) else (p,)
        return core.sym_or(*[self._c(z3.PrefixOf(expr(x), self.e)) for x in ps])

    def endswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return core.sym_or(*[self._c(z3.SuffixOf(expr(x), self.e)) for x in ps])

    def __add__(self, o):
        return SymStr(z3.Concat(self.e, expr(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(expr(o), self.e))

    def __getitem__(self, k):
        n = z3.Length(self.e)

        def pos(v, d):
            if v is None:
                return d
            v = v.e if core.is_sym(v) else z3.IntVal(v)
            return z3.simplify(z3.If(v < 0, z3.If(n + v < 0, 0, n + v), z3.If(v > n, n, v)))

        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice of text with a step")
            a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, n)
            return SymStr(z3.SubString(self.e, a, z3.If(b > a, b - a, 0)))
        v = core._z(k)
        v = z3.If(v < 0, n + v, v)
        if not SymBool(z3.And(v >= 0, v < n)):
            raise IndexError("string index out of range")
        return SymStr(z3.SubString(self.e, v, 1))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: -len(p)] if p and self.endswith(p) else self

    def lstrip(self, chars=None):
        x = self
        while x and any(x.startswith(c) for c in (chars or " \t\n")):
            x = x[1:]
        return x

    def rstrip(self, chars=None):
        x = self
        while x and any(x.endswith(c) for c in (chars or " \t\n")):
            x = x[:-1]
        return x

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def __str__(self):
        return "<text>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<text>"

    def __getattr__(self, k):
        if hasattr(str, k):
            raise Unsupported("text." + k)
        raise AttributeError(k)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]


def string(ctx, name, lo, hi, alphabet):
    """Any text over the alphabet with lo to hi letters."""
    if not ctx.symbolic:
        return str(ctx.vals.get(name, alphabet[0] * lo))
    v = ctx._fresh(name, z3.String)
    letters = z3.Union(*[z3.Re(c) for c in alphabet]) if len(alphabet) > 1 else z3.Re(alphabet)
    ctx._assume(z3.InRe(v, z3.Loop(letters, lo, hi)))
    return SymStr(v)
