"""Symbolic text of known length: a list of symbolic characters behind the interface of str, and the floats that are
read from it (IEEE double rounding is over-approximated by its relative error bound)."""
import z3

from symx import core
from symx.core import SymInt, SymReal, Unsupported, sym_and, sym_or

WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32)
EPS = z3.Q(1, 2 ** 53)


def is_ws(c):
    return sym_or(*[c == w for w in WS])


def is_digit(c):
    return sym_and(c >= 48, c <= 57)


def lower(c):
    return core.ite(sym_and(c >= 65, c <= 90), c + 32, c)


def upper(c):
    return core.ite(sym_and(c >= 97, c <= 122), c - 32, c)


class Text:
    __slots__ = ("c",)

    def __init__(self, chars):
        self.c = list(chars)

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __sx_len__(self):
        return len(self.c)

    def __len__(self):
        return len(self.c)

    def _is(self, o):
        if isinstance(o, Text) or type(o) is Text:
            oc = o.c
        elif isinstance(o, str):
            oc = [ord(x) for x in o]
        else:
            return None
        if len(oc) != len(self.c):
            return False
        return sym_and(True, *[a == b for a, b in zip(self.c, oc)])

    def __eq__(self, o):
        r = self._is(o)
        return NotImplemented if r is None else r

    def __ne__(self, o):
        r = self._is(o)
        return NotImplemented if r is None else core.sym_not(r)

    def lower(self):
        return Text([lower(c) for c in self.c])

    casefold = lower

    def upper(self):
        return Text([upper(c) for c in self.c])

    def _one(self, c, chars):
        return is_ws(c) if chars is None else sym_or(False, *[c == ord(x) for x in chars])

    def lstrip(self, chars=None):
        c = self.c
        while c and self._one(c[0], chars):
            c = c[1:]
        return Text(c)

    def rstrip(self, chars=None):
        c = self.c
        while c and self._one(c[-1], chars):
            c = c[:-1]
        return Text(c)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def endswith(self, s):
        if isinstance(s, tuple):
            return sym_or(False, *[self.endswith(x) for x in s])
        return len(s) <= len(self.c) and Text(self.c[len(self.c) - len(s):])._is(s)

    def startswith(self, s):
        if isinstance(s, tuple):
            return sym_or(False, *[self.startswith(x) for x in s])
        return len(s) <= len(self.c) and Text(self.c[:len(s)])._is(s)

    def removesuffix(self, s):
        return Text(self.c[: len(self.c) - len(s)]) if s and self.endswith(s) else self

    def removeprefix(self, s):
        return Text(self.c[len(s):]) if s and self.startswith(s) else self

    def __getitem__(self, k):
        return Text(self.c[k] if isinstance(k, slice) else [self.c[k]])

    def __iter__(self):
        return iter([Text([c]) for c in self.c])

    def __contains__(self, s):
        n = len(s)
        return any(bool(Text(self.c[i:i + n])._is(s)) for i in range(len(self.c) - n + 1))

    def find(self, s):
        for i in range(len(self.c) - len(s) + 1):
            if Text(self.c[i:i + len(s)])._is(s):
                return i
        return -1

    def replace(self, a, b):
        i = self.find(a)
        return self if i < 0 else Text(self.c[:i] + [ord(x) for x in b] + Text(self.c[i + len(a):]).replace(a, b).c)

    def isdigit(self):
        return bool(self.c) and sym_and(*[is_digit(c) for c in self.c])

    isnumeric = isdecimal = isdigit

    def isalpha(self):
        return bool(self.c) and sym_and(*[sym_and(lower(c) >= 97, lower(c) <= 122) for c in self.c])

    def isspace(self):
        return bool(self.c) and sym_and(*[is_ws(c) for c in self.c])

    def __add__(self, o):
        return Text(self.c + (o.c if type(o) is Text else [ord(x) for x in o]))

    def __radd__(self, o):
        return Text([ord(x) for x in o] + self.c)

    def __str__(self):
        return "<text>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<text>"

    def __sx_float__(self):
        n = number(self.c)
        if n is None:
            raise ValueError("could not convert string to float: <text>")
        if isinstance(n, str):
            return float(n)
        m, scale, digits = n
        e = core._z(m)
        return rounded(z3.ToReal(e) * 10 ** scale if scale >= 0 else z3.ToReal(e) / 10 ** -scale, scale >= 0 and digits + scale <= 15)

    def __sx_int__(self):
        n = number(self.c, integer=True)
        if n is None or isinstance(n, str):
            raise ValueError("invalid literal for int() with base 10: <text>")
        return n[0]

    def __getattr__(self, k):
        if hasattr(str, k):
            raise Unsupported("text." + k)
        raise AttributeError(k)


class Float:
    """A double: its exact value, and whether products with small whole numbers are exact."""

    def __init__(self, e, exact):
        self.r, self.exact = SymReal(e), exact

    @property
    def __class__(self):
        return float

    def __mul__(self, o):
        if type(o) is not int:
            raise Unsupported("product")
        # whole numbers of at most 15 digits times at most 10**k are exact below 2**53
        p = self.r.e * o
        if self.exact and bool(SymReal(p) <= 2 ** 53) and bool(SymReal(p) >= -2 ** 53):
            return Float(p, True)
        return rounded(p, False)

    __rmul__ = __mul__

    def __sx_int__(self):
        return self.r.__trunc__()

    def __trunc__(self):
        return self.r.__trunc__()

    def __round__(self, n=None):
        return self.r.__round__(n)

    def __floor__(self):
        return self.r.__floor__()

    def __lt__(self, o):
        return self.r < o

    def __le__(self, o):
        return self.r <= o

    def __gt__(self, o):
        return self.r > o

    def __ge__(self, o):
        return self.r >= o

    def __eq__(self, o):
        return self.r == o

    def __ne__(self, o):
        return self.r != o

    def __neg__(self):
        return Float(-self.r.e, self.exact)

    def is_integer(self):
        return self.r.is_integer()

    def __getattr__(self, k):
        if hasattr(float, k):
            raise Unsupported("float." + k)
        raise AttributeError(k)


def rounded(e, exact):
    if exact:
        return Float(e, True)
    ctx = core.CUR
    f = ctx._fresh(f"rounding{len(ctx.inputs)}", z3.Real)
    err = z3.If(e >= 0, e, -e) * EPS
    ctx._assume(z3.And(f <= e + err, f >= e - err))
    return Float(f, False)


def number(cs, integer=False):
    """The literal of float() (or int()) that the characters spell: (mantissa, power of ten, number of digits), "inf",
    "nan" or None when it is malformed."""
    t = Text(cs).strip().c
    if not t:
        return None
    neg = False
    if t[0] == 43 or t[0] == 45:
        neg = bool(t[0] == 45)
        t = t[1:]
    if not integer:
        w = Text(t).lower()
        if w == "inf" or w == "infinity":
            return "-inf" if neg else "inf"
        if w == "nan":
            return "nan"

    def digits(t):
        out, last = [], None  # last: 1 after a digit, 2 after an underscore
        while t:
            if is_digit(t[0]):
                out.append(t[0] - 48)
                last = 1
            elif last == 1 and len(t) > 1 and t[0] == 95 and is_digit(t[1]):
                last = 2
            else:
                break
            t = t[1:]
        return out, t

    whole, t = digits(t)
    frac = []
    if not integer and t and t[0] == 46:
        frac, t = digits(t[1:])
    if not whole and not frac:
        return None
    exp = 0
    if not integer and t and (t[0] == 101 or t[0] == 69):
        t = t[1:]
        eneg = False
        if t and (t[0] == 43 or t[0] == 45):
            eneg = bool(t[0] == 45)
            t = t[1:]
        ds, t = digits(t)
        if not ds:
            return None
        for d in ds:
            exp = exp * 10 + int(d)
        exp = -exp if eneg else exp
        if abs(exp) > 250:
            raise Unsupported("huge exponent")
    if t:
        return None
    m = 0
    for d in whole + frac:
        m = m * 10 + d
    return (0 - m if neg else m), exp - len(frac), len(whole) + len(frac)


def text(ctx, name, n, lo=32, hi=126, extra=()):
    """Any text of n characters."""
    cs = []
    for i in range(n):
        c = ctx.int(f"{name}{i}", min([lo, *extra]), hi)
        if extra:
            ctx.assume(sym_or(c >= lo, *[c == x for x in extra]))
        cs.append(c)
    return Text(cs) if ctx.symbolic else "".join(chr(c) for c in cs)


def chars(t):
    return t.c if type(t) is Text else [ord(x) for x in t]
