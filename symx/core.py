"""A small symbolic executor for Python.

The functions under test are the real ones, imported from the repository and executed by the
ordinary interpreter, but on z3-backed proxy values.  Every time the real code asks for the
truth value of a symbolic condition (``if``, ``while``, ``and``, a comparison in C code that
calls back ``__bool__``...) the engine forks: it keeps a model of the current path condition,
follows the side the model takes, and asks the solver at backtracking time whether the other
side is feasible.  When a symbolic integer reaches a place that needs a machine integer
(``__index__``: list indexing, ``range``, numpy) it is split over *every* feasible value, one
solver query per value, so that nothing is ever silently concretised.

A harness is a function ``h(ctx)``.  It obtains its inputs from ``ctx`` (``ctx.int`` ...), runs
the real code, and states obligations with ``ctx.check``.  The same function runs in three modes:
``SymCtx`` (exploration), and ``ConcreteCtx`` (replay: all inputs are ordinary Python values taken
from a solver model, no proxies anywhere).
"""
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import time  # noqa: E402
import traceback  # noqa: E402

import z3  # noqa: E402

z3.z3.Z3_DEBUG = False

_real_monotonic = time.monotonic


class PathAbort(BaseException):
    """Ends the current path (not an Exception so the code under test cannot swallow it)."""


class Infeasible(PathAbort):
    pass


class Hang(PathAbort):
    """The code under test doesn't end."""


class Violated(PathAbort):
    def __init__(self, msg):
        self.msg = msg


class Inconclusive(PathAbort):
    pass


class Stop(PathAbort):
    """End of path requested by the harness (e.g. simulated crash inside a helper)."""


class Unsupported(PathAbort):
    """The code did something the proxies do not model; the path is counted, not judged."""


class HarnessError(Exception):
    pass


CUR = None  # the active SymCtx, if any
TEXT_IS_LOG = False  # set while everything turned into text is only printed: no need to fix its value


def _z(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if type(x) is SymReal:
        return x.e
    if x is True or x is False:
        return z3.IntVal(int(x))
    t = type(x)
    if t is int:
        return z3.IntVal(x)
    if t is float:
        if x == int(x):
            return z3.IntVal(int(x))
        return z3.RealVal(repr(x))
    mod = t.__module__
    if mod == "numpy" and getattr(x, "shape", None) == ():
        if t.__name__.startswith(("int", "uint")):
            return z3.IntVal(int(x))
        if t.__name__.startswith("float"):
            return _z(float(x))
        if t.__name__.startswith("bool"):
            return z3.IntVal(int(bool(x)))
    return None


def is_sym(x):
    return type(x) in (SymInt, SymBool, SymReal)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return SymBool(z3.Not(self.e))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if type(r) is SymBool else not r

    def __and__(self, o):
        return sym_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sym_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return ~int(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({self.e})"

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))


def bexpr(c):
    if type(c) is SymBool:
        return c.e
    if isinstance(c, z3.BoolRef):
        return c
    if type(c) is SymInt:
        return c.e != 0
    return z3.BoolVal(bool(c))


def sym_and(*cs):
    if not any(type(c) in (SymBool, SymInt) for c in cs):
        return all(cs)
    return SymBool(z3.And([bexpr(c) for c in cs]))


def sym_or(*cs):
    if not any(type(c) in (SymBool, SymInt) for c in cs):
        return any(cs)
    return SymBool(z3.Or([bexpr(c) for c in cs]))


def sym_not(c):
    if type(c) in (SymBool, SymInt):
        return SymBool(z3.Not(bexpr(c)))
    return not c


def implies(a, b):
    return sym_or(sym_not(a), b)


def sym_sum(xs):
    xs = list(xs)
    if not any(is_sym(x) for x in xs):
        return sum(xs)
    return wrap(z3.Sum([_z(x) for x in xs]))


def ite(c, a, b):
    if type(c) is SymBool:
        ea, eb = _z(a), _z(b)
        return wrap(z3.If(c.e, ea, eb))
    return a if c else b


def wrap(e):
    if z3.is_int_value(e):
        return e.as_long()
    if isinstance(e, z3.BoolRef):
        return SymBool(e)
    if e.is_int():
        return SymInt(e)
    return SymReal(e)


def _floordiv(a, b):
    # python floor division from z3 (euclidean) div, for any sign of b
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        if b.as_long() < 0:
            return (-a) / (-b)
        raise ZeroDivisionError("integer division or modulo by zero")
    return z3.If(b > 0, a / b, (-a) / (-b))


# Integers inside text: while TOKENS is a list, formatting a symbolic integer yields one private character that stands
# for its decimal digits, and int() of that character gives the integer back.
TOKENS = None
TOKEN_BASE = 0xE100


def token(x):
    for k, y in enumerate(TOKENS):
        if y is x or z3.eq(y.e, x.e):
            return chr(TOKEN_BASE + k)
    TOKENS.append(x)
    return chr(TOKEN_BASE + len(TOKENS) - 1)


def untoken(s):
    """The integers of a text with tokens: a list of literal texts and symbolic integers."""
    out = []
    for c in s:
        k = ord(c) - TOKEN_BASE
        if TOKENS is not None and 0 <= k < len(TOKENS):
            out.append(TOKENS[k])
        elif out and isinstance(out[-1], str):
            out[-1] += c
        else:
            out.append(c)
    return out


class _Num:
    __slots__ = ()

    def __hash__(self):
        return hash(self._conc())

    def _bin(self, o, f):
        if type(self) is SymInt and self.v is not None:
            if type(o) is int or type(o) is float:
                return f(self.v, o)
            if type(o) is SymInt and o.v is not None:
                return f(self.v, o.v)
        z = _z(o)
        if z is None:
            return NotImplemented
        return wrap(f(self.e, z))

    def _rbin(self, o, f):
        if type(self) is SymInt and self.v is not None and (type(o) is int or type(o) is float):
            return f(o, self.v)
        z = _z(o)
        if z is None:
            return NotImplemented
        return wrap(f(z, self.e))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._rbin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)) and not is_sym(o):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)) and not is_sym(o):
            return o * self.__index__()
        return self._rbin(o, lambda a, b: a * b)

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        if type(self) is SymInt and self.v is not None and type(o) in (int, float):
            return self.v / o
        z = _z(o)
        if z is None:
            return NotImplemented
        CUR.need(z != 0, ZeroDivisionError("division by zero"))
        return SymReal(z3.ToReal(self.e) if self.e.is_int() else self.e) ._div(z)

    def __rtruediv__(self, o):
        if type(self) is SymInt and self.v is not None and type(o) in (int, float):
            return o / self.v
        z = _z(o)
        if z is None:
            return NotImplemented
        CUR.need(self.e != 0, ZeroDivisionError("division by zero"))
        return SymReal(z3.ToReal(z) if z.is_int() else z)._div(self.e)

    def _cmp(self, o, f):
        if type(self) is SymInt and self.v is not None:
            if type(o) is int or type(o) is float:
                return f(self.v, o)
            if type(o) is SymInt and o.v is not None:
                return f(self.v, o.v)
        z = _z(o)
        if z is None:
            return NotImplemented
        return SymBool(f(self.e, z))

    def __eq__(self, o):
        if o is None:
            return False
        if type(self) is SymInt and self.v is not None and type(o) is int:
            return self.v == o
        z = _z(o)
        if z is None:
            return NotImplemented
        return SymBool(self.e == z)

    def __ne__(self, o):
        if o is None:
            return True
        if type(self) is SymInt and self.v is not None and type(o) is int:
            return self.v != o
        z = _z(o)
        if z is None:
            return NotImplemented
        return SymBool(self.e != z)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        if type(self) is SymInt and self.v is not None:
            return self.v != 0
        return CUR.branch(self.e != 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        c = self._conc()
        return (type(c), (c,))

    def __repr__(self):
        return f"<{z3.simplify(self.e)}>"

    def __format__(self, spec):
        if TEXT_IS_LOG:
            return "<symbolic>"
        if TOKENS is not None and spec in ("", "d") and type(self) is SymInt:
            return token(self)
        return format(self._conc(), spec)

    def __str__(self):
        if TEXT_IS_LOG:
            return "<symbolic>"
        if TOKENS is not None and type(self) is SymInt:
            return token(self)
        return str(self._conc())


class SymInt(_Num):
    __slots__ = ("e", "v")

    def __init__(self, e):
        self.e = e
        self.v = None  # the value, once this path has fixed it

    @property
    def __class__(self):
        return int

    def __index__(self):
        v = self.v
        if v is None:
            v = CUR.realise(self.e)
            self.v = v
            self.e = z3.IntVal(v)
        return v

    __int__ = _conc = __index__

    def __float__(self):
        return float(self.__index__())

    def __floordiv__(self, o):
        if self.v is not None and type(o) in (int, float):
            return self.v // o
        z = _z(o)
        if z is None:
            return NotImplemented
        if not z.is_int():
            return self.__truediv__(o).__floor__() * 1.0
        if not z3.is_int_value(z):
            CUR.need(z != 0, ZeroDivisionError("integer division or modulo by zero"))
        return wrap(_floordiv(self.e, z))

    def __rfloordiv__(self, o):
        if self.v is not None and type(o) in (int, float):
            return o // self.v
        z = _z(o)
        if z is None:
            return NotImplemented
        CUR.need(self.e != 0, ZeroDivisionError("integer division or modulo by zero"))
        return wrap(_floordiv(z, self.e))

    def __mod__(self, o):
        if self.v is not None and type(o) in (int, float):
            return self.v % o
        z = _z(o)
        if z is None:
            return NotImplemented
        if not z3.is_int_value(z):
            CUR.need(z != 0, ZeroDivisionError("integer division or modulo by zero"))
        return wrap(self.e - z * _floordiv(self.e, z))

    def __rmod__(self, o):
        if self.v is not None and type(o) in (int, float):
            return o % self.v
        z = _z(o)
        if z is None:
            return NotImplemented
        CUR.need(self.e != 0, ZeroDivisionError("integer division or modulo by zero"))
        return wrap(z - self.e * _floordiv(z, self.e))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, m=None):
        if type(o) is int and o >= 0 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __and__(self, o):
        return self.__index__() & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ int(o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return -self - 1

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, *a, **k):
        return self.__index__().to_bytes(*a, **k)

    def item(self):
        return self

    def astype(self, t):
        return self

    @property
    def real(self):
        return self


class SymReal(_Num):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def _div(self, z):
        if z.is_int():
            z = z3.ToReal(z)
        return SymReal(self.e / z)

    def _conc(self):
        m = CUR.realise_real(self.e)
        return m

    def __float__(self):
        return self._conc()

    def _floor(self):
        return wrap(z3.ToInt(self.e))

    __floor__ = _floor

    def __ceil__(self):
        return wrap(-z3.ToInt(-self.e))

    def __trunc__(self):
        return wrap(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __int__(self):
        return CUR.realise(_z(self.__trunc__()))

    def __round__(self, n=None):
        if n:
            return round(self._conc(), n)
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        r = z3.If(
            d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1))
        )
        return wrap(r)

    def __floordiv__(self, o):
        return (self / o).__floor__() * 1.0

    def __mod__(self, o):
        return self - (self / o).__floor__() * o

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))


# ------------------------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.check_queries = 0
        self.unknown = 0
        self.infeasible = 0
        self.replayed = 0
        self.unsupported = 0
        self.reach = {}

    def merge(self, o):
        for k in ("paths", "branches", "queries", "solver_s", "checks", "check_queries", "unknown", "infeasible",
                  "replayed", "unsupported"):
            setattr(self, k, getattr(self, k) + o[k])
        for k, v in o["reach"].items():
            self.reach[k] = self.reach.get(k, 0) + v

    def asdict(self):
        return dict(self.__dict__)


class SymCtx:
    symbolic = True

    def __init__(self, timeout_ms=20000):
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set("timeout", min(timeout_ms, 2000))
        self.stats = Stats()
        self.decisions = []  # list of [cond_expr, taken(bool), alternative_open(bool)]
        self.model = None
        self.in_solver = False
        self.hints = []
        self.reset_run()

    # -- exploration bookkeeping ------------------------------------------------------
    def reset_run(self):
        self.pos = 0
        self.hpos = 0
        self.pins = []
        self._pin_arrays = (0, None, None)
        self.inputs = {}
        self.cache = {}
        self.counter = 0
        self.notes = {}

    def _check(self, *extra):
        """Is the path condition (with extra) satisfiable?  The incremental solver gets a short time; a query it does
        not decide goes to fresh solvers with other settings."""
        self.in_solver = True
        try:
            return self._check_(*extra)
        finally:
            self.in_solver = False

    def _check_(self, *extra):
        t = _real_monotonic()
        self.stats.queries += 1
        s = self.solver
        r = s.check(*extra)
        if r == z3.unknown:
            for i in range(3):
                s = z3.Solver()
                s.set("timeout", self.timeout_ms)
                if i == 1:
                    s.set("arith.solver", 2)
                if i == 2:
                    s.set("random_seed", 17)
                s.add(self.solver.assertions())
                s.add(*extra)
                r = s.check()
                if r != z3.unknown:
                    break
        self.stats.solver_s += _real_monotonic() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Inconclusive("solver returned unknown: " + s.reason_unknown())
        if r == z3.sat:
            self.last_model = s.model()
        return r == z3.sat

    def replaying(self):
        return self.pos < len(self.decisions)

    def _add(self, e):
        """Assert e in the current frame (no-op while replaying a prefix: it is already there)."""
        if self.replaying():
            return
        self.solver.add(e)

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.last_model
        return self.model

    def _pinned(self, e):
        """e with the values already fixed on this path."""
        n = len(self.pins)
        if not n:
            return e
        if self._pin_arrays[0] != n:
            self._pin_arrays = (n, (z3.Ast * n)(*[a.as_ast() for a, _ in self.pins]),
                                (z3.Ast * n)(*[b.as_ast() for _, b in self.pins]))
        return z3.z3._to_expr_ref(z3.Z3_substitute(e.ctx.ref(), e.as_ast(), n, *self._pin_arrays[1:]), e.ctx)

    def branch(self, cond):
        key = cond.get_id()
        hit = self.cache.get(key)
        if hit is not None:
            return hit[1]
        s = z3.simplify(self._pinned(cond))
        if z3.is_true(s) or z3.is_false(s):
            self.cache[key] = (cond, z3.is_true(s))
            return self.cache[key][1]
        self.stats.branches += 1
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if not d[0].eq(cond):
                raise HarnessError(f"nondeterministic replay: {d[0]} vs {cond}")
            self.pos += 1
            self.cache[key] = (cond, d[1])
            return d[1]
        m = self._ensure_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        self.solver.push()
        self.solver.add(cond if side else z3.Not(cond))
        self.decisions.append([cond, side, True])
        self.pos += 1
        self.cache[key] = (cond, side)
        return side

    def _hint(self, e):
        """Value to try next for e: deterministic across replays of the same prefix."""
        if self.hpos < len(self.hints):
            v = self.hints[self.hpos][1]
        else:
            m = self._ensure_model()
            v = m.eval(e, model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else v.as_fraction()
            self.hints.append((self.pos, v))
        self.hpos += 1
        return v

    def realise(self, e):
        s = z3.simplify(self._pinned(e))
        if z3.is_int_value(s):
            return s.as_long()
        n = 0
        while True:
            v = self._hint(e)
            if self.branch(e == v):
                if z3.is_const(e):
                    self.pins.append((e, z3.IntVal(v)))
                return v
            n += 1
            if n > 5000:
                raise Inconclusive("value split over more than 5000 values")

    def realise_real(self, e):
        s = z3.simplify(e)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            return float(s.as_fraction())
        n = 0
        while True:
            fr = self._hint(e)
            if self.branch(e == z3.Q(fr.numerator, fr.denominator)):
                return float(fr)
            n += 1
            if n > 5000:
                raise Inconclusive("real value split over more than 5000 values")

    def backtrack(self):
        """Moves to the next unexplored prefix. Returns False when exhausted."""
        while self.decisions:
            d = self.decisions[-1]
            self.solver.pop()
            if d[2]:
                d[2] = False
                neg = z3.Not(d[0]) if d[1] else d[0]
                self.solver.push()
                self.solver.add(neg)
                if self._check():
                    self.model = self.last_model
                    d[1] = not d[1]
                    last = len(self.decisions) - 1
                    while self.hints and self.hints[-1][0] > last:
                        self.hints.pop()
                    return True
                self.solver.pop()
            self.decisions.pop()
        return False

    def need(self, cond, exc):
        if not self.branch(cond):
            raise exc

    # -- harness API --------------------------------------------------------------------
    def _fresh(self, name, mk):
        if name in self.inputs:
            raise HarnessError(f"duplicate input {name}")
        v = mk(name)
        self.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        if lo == hi:
            self.inputs[name] = lo
            return lo
        v = self._fresh(name, z3.Int)
        self._assume(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def bool(self, name):
        return SymBool(self._fresh(name, z3.Bool))

    def pick(self, name, options):
        """A symbolic choice among concrete options: forks over every feasible index."""
        options = list(options)
        if len(options) == 1:
            self.inputs[name] = 0
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.realise(i.e)]

    def _assume(self, e):
        if self.replaying():
            return
        if z3.is_true(z3.simplify(e)):
            return
        self.solver.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
            self._ensure_model()

    def assume(self, c):
        if type(c) in (SymBool, SymInt) or isinstance(c, z3.BoolRef):
            self._assume(bexpr(c))
        elif not c:
            raise Infeasible()

    def check(self, c, msg):
        """Obligation: c must hold for every value compatible with this path."""
        if self.replaying():
            # already discharged on the path that shares this prefix
            return
        self.stats.checks += 1
        if type(c) in (SymBool, SymInt) or isinstance(c, z3.BoolRef):
            e = z3.simplify(z3.Not(bexpr(c)))
            if z3.is_false(e):
                return
            self.stats.check_queries += 1
            if self._check(e):
                self.solver.push()
                self.solver.add(e)
                self._check()
                self.model = self.last_model
                self.solver.pop()
                raise Violated(msg)
        elif not c:
            self._ensure_model()
            raise Violated(msg)

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, tag, c=True):
        """Non-vacuity witness: records that a path satisfying c reached this point."""
        if tag in self.stats.reach and self.stats.reach[tag] > 3:
            self.stats.reach[tag] += 1
            return
        if type(c) in (SymBool, SymInt):
            if not self._check(bexpr(c)):
                return
        elif not c:
            return
        self.stats.reach[tag] = self.stats.reach.get(tag, 0) + 1

    def fresh_values(self):
        try:
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(self.solver.assertions())
            s.add([c if side else z3.Not(c) for c, side, *_ in self.decisions[: self.pos]])
            if s.check() != z3.sat:
                return None
            self.model = s.model()
            return self.values()
        except BaseException:
            return None

    def values(self):
        m = self._ensure_model()
        out = {}
        for k, v in self.inputs.items():
            if isinstance(v, z3.ExprRef):
                x = m.eval(v, model_completion=True)
                if z3.is_bool(x):
                    out[k] = bool(z3.is_true(x))
                elif z3.is_int_value(x):
                    out[k] = x.as_long()
                elif z3.is_string_value(x):
                    out[k] = x.as_string()
                else:
                    fr = x.as_fraction()
                    out[k] = float(fr)
            else:
                out[k] = v
        return out


class ConcreteCtx:
    """Replays a harness on ordinary values."""

    symbolic = False

    def __init__(self, values):
        self.vals = values
        self.stats = Stats()
        self.notes = {}

    def int(self, name, lo, hi):
        v = int(self.vals.get(name, lo))
        if not lo <= v <= hi:  # no input of the harness
            raise Infeasible()
        return v

    def bool(self, name):
        return bool(self.vals.get(name, False))

    def pick(self, name, options):
        options = list(options)
        i = int(self.vals.get(name, 0))
        if not 0 <= i < len(options):
            raise Infeasible()
        return options[i]

    def assume(self, c):
        if not c:
            raise Infeasible()

    def check(self, c, msg):
        self.stats.checks += 1
        if not c:
            raise Violated(msg)

    def fail(self, msg):
        raise Violated(msg)

    def reach(self, tag, c=True):
        pass


def explore(harness, max_paths=None, deadline=None, on_path=None, timeout_ms=20000, on_run=None, confirm=None):
    """Explores every path of harness. Returns dict(stats, violation, status).

    confirm(values) replays a counterexample on plain values; one it rejects comes from the model of the code (an
    operation the proxies do not follow), not from the code: its path is counted as unsupported and the exploration
    goes on."""
    global CUR
    ctx = SymCtx(timeout_ms)
    status = "complete"
    violations = []
    errors = []
    spurious = []

    def report(v):
        """Whether to stop with this violation."""
        if confirm is not None and v["values"] is not None and len(spurious) < 10000:
            global CUR
            CUR = None
            if not confirm(v["values"]):
                if len(spurious) < 5:
                    spurious.append(v)
                ctx.stats.unsupported += 1
                return False
        violations.append(v)
        return True

    while True:
        ctx.reset_run()
        CUR = ctx
        if on_run:
            on_run(ctx)
        try:
            harness(ctx)
            ctx.stats.paths += 1
            if on_path:
                on_path(ctx)
        except Infeasible:
            ctx.stats.infeasible += 1
        except Stop:
            ctx.stats.paths += 1
        except Hang as h:
            # it may have hit the solver's bookkeeping: take the values from the decisions alone, and explore no further
            ctx.stats.paths += 1
            vals = ctx.fresh_values()
            CUR = None
            if vals is not None and (confirm is None or confirm(vals)):
                violations.append({"msg": str(h), "values": vals})
                status = "violation"
            else:
                spurious.append({"msg": str(h)})
                ctx.stats.unsupported += 1
                status = "budget"
            break
        except Violated as v:
            ctx.stats.paths += 1
            if report({"msg": v.msg, "values": ctx.values()}):
                status = "violation"
                break
        except Unsupported as u:
            # the model does not follow the code here: what is left is to try a value of the path on the real code
            ctx.stats.unsupported += 1
            if len(spurious) < 5:
                spurious.append({"msg": f"unsupported: {u}"})
            if confirm is not None and ctx.stats.unsupported <= 30:
                try:
                    vals = ctx.values()
                except BaseException:
                    vals = None
                CUR = None
                if vals is not None and confirm(vals):
                    violations.append({"msg": f"on a path the model does not follow ({u})", "values": vals})
                    status = "violation"
                    break
        except Inconclusive as i:
            errors.append("inconclusive: " + str(i))
            status = "inconclusive"
            break
        except HarnessError as e:
            errors.append("harness: " + str(e))
            status = "error"
            break
        except Exception as e:  # unexpected exception inside harness or code under test
            tb = traceback.format_exc()
            ctx.stats.paths += 1
            try:
                vals = ctx.values()
            except BaseException:
                vals = None
            if report({"msg": f"unexpected {type(e).__name__}: {e}", "values": vals, "tb": tb}):
                status = "violation"
                break
        finally:
            CUR = None
        if max_paths and ctx.stats.paths >= max_paths:
            status = "budget"
            break
        if deadline and _real_monotonic() > deadline:
            status = "budget"
            break
        CUR = ctx
        try:
            more = ctx.backtrack()
        except Inconclusive as i:
            errors.append("inconclusive: " + str(i))
            status = "inconclusive"
            break
        finally:
            CUR = None
        if not more:
            break
    return {"status": status, "stats": ctx.stats.asdict(), "violations": violations, "errors": errors,
            "spurious": spurious}
