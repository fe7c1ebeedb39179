"""Byte strings of symbolic length and content.

A Rope is a sequence of segments: literal bytes, fixed-width little-endian words holding a symbolic integer, and slices of
blobs (arbitrary bytes of symbolic length).  Lengths, slice bounds and file offsets may all be symbolic; every place where
the shape depends on them forks through the engine.  Equality of two ropes is equality for all contents of the blobs.

Symbolic mode only.  `Files` holds the contents of files written with ropes; `NumpyShim` and `StructShim` stand in for the
few numpy/struct operations the code applies to sizes and offsets; everything else goes to the real modules.
"""
import builtins
import contextlib
import io
import os

import numpy as np
import z3

from symx import core
from symx.core import SymInt, SymBool, is_sym, sym_and, Unsupported
from symx.instrument import SX


def _len(x):
    return x.length() if type(x) is Rope else builtins.len(x)


class Blob:
    """Arbitrary content."""

    __slots__ = ("name", "length", "meta")

    def __init__(self, name, length, meta=None):
        self.name, self.length, self.meta = name, length, meta


class Rope:
    """segments: ("lit", bytes) | ("word", value, width) | ("blob", Blob, start, length)"""

    __slots__ = ("segs", "mutable")

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    @property
    def __class__(self):
        return bytes

    # ---- shape
    def length(self):
        return core.sym_sum([seg_len(s) for s in self.segs])

    __sx_len__ = length

    def __len__(self):
        n = self.length()
        return n.__index__() if is_sym(n) else n

    def __bool__(self):
        return bool(self.length() != 0)

    @staticmethod
    def of(x):
        if type(x) is Rope:
            return x
        if isinstance(x, (bytes, bytearray, memoryview)):
            return Rope([("lit", bytes(x))]) if builtins.len(x) else Rope()
        return None

    def __add__(self, o):
        r = Rope.of(o)
        if r is None:
            return NotImplemented
        return Rope(self.segs + r.segs)

    def __radd__(self, o):
        r = Rope.of(o)
        if r is None:
            return NotImplemented
        return Rope(r.segs + self.segs)

    def __mul__(self, n):
        return Rope(self.segs * int(n))

    @staticmethod
    def __sx_join__(sep, xs):
        segs = []
        for i, x in enumerate(xs):
            if i and sep:
                segs.append(("lit", sep))
            r = Rope.of(x)
            if r is None:
                raise TypeError("sequence item: expected a bytes-like object")
            segs.extend(r.segs)
        return Rope(segs)

    def __sx_bytes__(self):
        return self

    def tobytes(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # ---- slicing
    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice of bytes with a step")
            n = None
            a = 0 if k.start is None else k.start
            b = k.stop
            if a < 0:
                n = self.length()
                a = a + n
                if a < 0:
                    a = 0
            if b is not None and b < 0:
                n = self.length() if n is None else n
                b = b + n
                if b < 0:
                    b = 0
            return self.cut(a, b)
        if k < 0:
            k = k + self.length()
        r = self._cut(k, k + 1)
        if r.length() == 0:
            raise IndexError("index out of range")
        return r.as_int()

    def plain(self):
        """Ordinary bytes when nothing is symbolic."""
        if all(s[0] == "lit" for s in self.segs):
            return b"".join(s[1] for s in self.segs)
        return self

    def cut(self, a, b):
        return self._cut(a, b).plain()

    def _cut(self, a, b):
        """bytes [a, b) clipped to the length; b may be None."""
        out = []
        pos = 0  # start of the current segment
        for s in self.segs:
            n = seg_len(s)
            end = pos + n
            # does [a, b) overlap [pos, end)?
            if b is not None and b <= pos:
                break
            if a >= end:
                pos = end
                continue
            lo = a - pos if a > pos else 0
            hi = n if b is None or b >= end else b - pos
            out.append(seg_cut(s, lo, hi))
            pos = end
        return Rope(s for s in out if s is not None)

    # ---- numbers
    def as_int(self):
        """The little-endian number these bytes encode (total length must be concrete and small)."""
        v, shift = 0, 0
        for s in self.normal():
            n = seg_len(s)
            n = int(n)
            if shift + n > 8:
                raise Unsupported("number of more than 8 bytes")
            if s[0] == "lit":
                x = int.from_bytes(s[1], "little")
            elif s[0] == "word":
                x = s[1]
            else:
                x = content(s, n)
            v = v + x * (256 ** shift)
            shift += n
        return v

    def words(self, width):
        n = self.length()
        if is_sym(n):
            if not (n % width == 0):
                raise ValueError("buffer size must be a multiple of element size")
            n = int(n)
        if n % width:
            raise ValueError("buffer size must be a multiple of element size")
        out = []
        segs = self.normal()
        if all(s[0] == "word" and s[2] == width for s in segs):
            return [s[1] for s in segs]
        r = Rope(segs)
        for i in range(n // width):
            out.append(r._cut(i * width, (i + 1) * width).as_int())
        return out

    # ---- comparison
    def normal(self):
        """Segments without empty ones, with adjacent literals and contiguous blob slices merged."""
        out = []
        for s in self.segs:
            n = seg_len(s)
            if n == 0:
                continue
            if out and s[0] == "lit" and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + s[1])
                continue
            if out and s[0] == "blob" and out[-1][0] == "blob" and out[-1][1] is s[1] and (
                    out[-1][2] + out[-1][3] == s[2]):
                out[-1] = ("blob", s[1], out[-1][2], out[-1][3] + s[3])
                continue
            out.append(s)
        return out

    def same(self, o):
        """Condition: equal for every content of the blobs."""
        o = Rope.of(o)
        if o is None:
            return False
        a, b = self.normal(), o.normal()
        if builtins.len(a) != builtins.len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            if x[0] == "lit" and y[0] == "word" or x[0] == "word" and y[0] == "lit":
                w, li = (x, y) if x[0] == "word" else (y, x)
                if builtins.len(li[1]) != w[2]:
                    raise Unsupported("comparison of differently cut numbers")
                cs.append(w[1] == int.from_bytes(li[1], "little"))
            elif x[0] != y[0]:
                return False
            elif x[0] == "lit":
                cs.append(x[1] == y[1])
            elif x[0] == "word":
                if x[2] != y[2]:
                    return False
                cs.append(x[1] == y[1])
            else:
                if x[1] is not y[1]:
                    return False
                cs += [x[2] == y[2], x[3] == y[3]]
        return sym_and(*cs) if cs else True

    def __eq__(self, o):
        r = Rope.of(o)
        if r is None:
            return False
        return self.same(r)

    def __ne__(self, o):
        return core.sym_not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __iter__(self):
        n = len(self)
        return iter([self[i] for i in range(n)])

    def decode(self, *a):
        p = self.plain()
        if type(p) is bytes:
            return p.decode(*a)
        raise Unsupported("decode of symbolic bytes")

    def __repr__(self):
        return f"Rope{self.segs}"

    def __reduce__(self):
        raise Unsupported("pickle of symbolic bytes")


def seg_len(s):
    if s[0] == "lit":
        return builtins.len(s[1])
    if s[0] == "word":
        return s[2]
    return s[3]


def seg_cut(s, lo, hi):
    if s[0] == "blob":
        if type(lo) is int and lo == 0 and hi is s[3]:
            return s
        return ("blob", s[1], s[2] + lo, hi - lo)
    n = seg_len(s)
    lo, hi = int(lo), int(hi)
    if lo == 0 and hi == n:
        return s
    if hi <= lo:
        return None
    if s[0] == "lit":
        return ("lit", s[1][lo:hi])
    v = s[1]
    return ("word", (v // (256 ** lo)) % (256 ** (hi - lo)), hi - lo)


_content = z3.Function("content", z3.StringSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def content(s, n):
    """The number stored in n bytes of a blob: arbitrary, but always the same."""
    e = _content(z3.StringVal(s[1].name), core._z(s[2]), z3.IntVal(n))
    core.CUR._assume(z3.And(e >= 0, e < 256 ** n))
    return SymInt(e)


def fresh(name, length, meta=None):
    return Rope([("blob", Blob(name, length, meta), 0, length)])


def word(v, width):
    if not is_sym(v):
        return Rope([("lit", int(v % 256 ** width).to_bytes(width, "little"))])
    if not sym_and(v >= 0, v < 256 ** width):
        v = v % 256 ** width
    return Rope([("word", v, width)])


# ---------------------------------------------------------------------------------------- numpy
class SymArr:
    """One-dimensional array of integers (some symbolic) of an unsigned/signed width, or unbounded (int64)."""

    def __init__(self, vals, dtype):
        self.dtype = np.dtype(dtype)
        self.vals = [self._fit(v) for v in vals]
        self.shape = (builtins.len(self.vals),)
        self.ndim = 1

    def _fit(self, v):
        if self.dtype.kind == "u":
            m = 256 ** self.dtype.itemsize
            if is_sym(v):
                if sym_and(v >= 0, v < m):
                    return v
                return v % m
            return int(v) % m
        return v

    @property
    def size(self):
        return builtins.len(self.vals)

    @property
    def nbytes(self):
        return builtins.len(self.vals) * self.dtype.itemsize

    def __len__(self):
        return builtins.len(self.vals)

    def __iter__(self):
        return iter(self.vals)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymArr(self.vals[k], self.dtype)
        return self.vals[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            vs = list(v) if hasattr(v, "__iter__") else [v] * builtins.len(self.vals[k])
            self.vals[k] = [self._fit(x) for x in vs]
        else:
            self.vals[k] = self._fit(v)

    def _ew(self, o, f, rev=False):
        if isinstance(o, (list, tuple, SymArr)) or type(o).__name__ == "ndarray":
            ys = list(o)
        else:
            ys = [o] * builtins.len(self.vals)
        if builtins.len(ys) != builtins.len(self.vals):
            raise ValueError("operands could not be broadcast together")
        return SymArr([f(y, x) if rev else f(x, y) for x, y in zip(self.vals, ys)], self.dtype)

    def __add__(self, o):
        return self._ew(o, lambda a, b: a + b)

    __radd__ = __add__

    def __iadd__(self, o):
        self.vals = self._ew(o, lambda a, b: a + b).vals
        return self

    def __sub__(self, o):
        return self._ew(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ew(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._ew(o, lambda a, b: a // b)

    def cumsum(self, *a, **k):
        out, t = [], 0
        for v in self.vals:
            t = t + v
            out.append(t)
        return SymArr(out, np.int64 if self.dtype.kind != "u" else np.uint64)

    def sum(self, *a, **k):
        return core.sym_sum(self.vals)

    def max(self):
        return SX.max(self.vals)

    def min(self):
        return SX.min(self.vals)

    def astype(self, t, *a, **k):
        return SymArr(self.vals, t)

    def tolist(self):
        return list(self.vals)

    def item(self):
        if len(self.vals) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.vals[0]

    def copy(self):
        return SymArr(self.vals, self.dtype)

    def tobytes(self, *a, **k):
        return Rope.__sx_join__(b"", [word(v, self.dtype.itemsize) for v in self.vals])

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array given to numpy")


def _has_sym(x):
    if is_sym(x) or type(x) in (SymArr, Rope):
        return True
    return isinstance(x, (list, tuple)) and any(_has_sym(y) for y in x)


class Scalar:
    """np.uint32 and friends, also callable with a symbolic integer."""

    def __init__(self, real):
        self.real_type = real
        self.__name__ = real.__name__

    def __call__(self, v=0, *a):
        if is_sym(v):
            dt = np.dtype(self.real_type)
            if dt.itemsize == 8:
                lo = -(2 ** 63) if dt.kind == "i" else 0
                if core.sym_or(v < lo, v >= lo + 2 ** 64):
                    raise OverflowError("Python int too large to convert to C long")
            return NpInt(SymArr([v], self.real_type))
        return self.real_type(v, *a)

    def __instancecheck__(self, x):
        return isinstance(x, self.real_type) or type(x) is NpInt and x.arr.dtype == np.dtype(self.real_type)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, o):
        return o is self or o == self.real_type

    def __hash__(self):
        return hash(self.real_type)

    @property
    def dtype(self):
        return np.dtype(self.real_type)

    def __getattr__(self, k):
        return getattr(self.real_type, k)


class NpInt(SymInt):
    """A symbolic numpy integer scalar."""

    __slots__ = ("arr",)

    def __init__(self, arr):
        v = arr.vals[0]
        SymInt.__init__(self, core._z(v))
        self.arr = arr

    def tobytes(self):
        return self.arr.tobytes()

    def item(self):
        return self.arr.vals[0]


def _rt(dtype):
    return dtype.real_type if type(dtype) is Scalar else dtype


class NumpyShim:
    def __init__(self):
        self._cache = {}

    def __getattr__(self, k):
        if k in ("uint8", "uint16", "uint32", "uint64", "int32", "int64"):
            if k not in self._cache:
                self._cache[k] = Scalar(getattr(np, k))
            return self._cache[k]
        return getattr(np, k)

    def array(self, x, dtype=None, **k):
        if _has_sym(x):
            if any(isinstance(y, (list, tuple)) for y in x):
                raise Unsupported("nested symbolic array")
            return SymArr(list(x), _rt(dtype) or np.int64)
        return np.array(x, _rt(dtype), **k)

    asarray = array

    def cumsum(self, x, *a, dtype=None, **k):
        if _has_sym(x):
            r = SymArr(list(x), getattr(x, "dtype", np.int64)).cumsum()
            return r.astype(_rt(dtype)) if dtype is not None else r
        return np.cumsum(x, *a, dtype=_rt(dtype), **k)

    def sum(self, x, *a, **k):
        return core.sym_sum(list(x)) if _has_sym(x) else np.sum(x, *a, **k)

    def concatenate(self, xs, *a, **k):
        if _has_sym(xs) or any(_has_sym(list(x)) for x in xs):
            dt = [getattr(x, "dtype", np.dtype(np.int64)) for x in xs]
            return SymArr([v for x in xs for v in x], np.result_type(*dt))
        return np.concatenate(xs, *a, **k)

    def diff(self, x, *a, **k):
        if _has_sym(x):
            v = list(x)
            return SymArr([b - a_ for a_, b in zip(v, v[1:])], getattr(x, "dtype", np.int64))
        return np.diff(x, *a, **k)

    def zeros(self, n, dtype=float, **k):
        if is_sym(n):
            n = int(n)
        return np.zeros(n, _rt(dtype), **k)

    def empty(self, n, dtype=float, **k):
        return np.empty(n, _rt(dtype), **k)

    def arange(self, *a, dtype=None, **k):
        return np.arange(*[int(x) if is_sym(x) else x for x in a], dtype=_rt(dtype), **k)

    def dtype(self, x, *a):
        return np.dtype(_rt(x), *a)

    def frombuffer(self, buf, dtype=float, count=-1, offset=0):
        if type(buf) is Rope:
            dt = np.dtype(_rt(dtype))
            if dt.kind not in "ui":
                raise Unsupported(f"frombuffer of symbolic bytes as {dt}")
            if count != -1:
                buf = buf[offset: offset + count * dt.itemsize]
            elif not (type(offset) is int and offset == 0):
                buf = buf[offset:]
            vals = buf.words(dt.itemsize)
            if dt.kind == "i":
                m = 256 ** dt.itemsize
                vals = [core.ite(v >= m // 2, v - m, v) if is_sym(v) else (v - m if v >= m // 2 else v) for v in vals]
            return SymArr(vals, dt)
        return np.frombuffer(buf, _rt(dtype), count, offset)


class StructShim:
    _w = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}

    def __init__(self, real):
        self._real = real

    def __getattr__(self, k):
        return getattr(self._real, k)

    def _fmt(self, fmt):
        import re

        if not fmt.startswith("<"):
            raise Unsupported("struct format " + fmt)
        out = []
        for n, c in re.findall(r"(\d*)([A-Za-z])", fmt):
            if c not in self._w:
                raise Unsupported("struct format " + fmt)
            out += [self._w[c]] * int(n or 1)
        return out

    def pack(self, fmt, *vals):
        if _has_sym(list(vals)):
            return Rope.__sx_join__(b"", [word(v, w) for v, w in zip(vals, self._fmt(fmt))])
        return self._real.pack(fmt, *vals)

    def unpack(self, fmt, buf):
        if type(buf) is Rope:
            out, p = [], 0
            for w in self._fmt(fmt):
                out.append(buf[p: p + w].as_int())
                p += w
            return tuple(out)
        return self._real.unpack(fmt, buf)

    def unpack_from(self, fmt, buf, offset=0):
        if type(buf) is Rope:
            return self.unpack(fmt, buf[offset: offset + sum(self._fmt(fmt))])
        return self._real.unpack_from(fmt, buf, offset)


# ---------------------------------------------------------------------------------------- files
class RopeFile:
    """A file object over a rope (read) or collecting one (write)."""

    def __init__(self, data=None, files=None, path=None, writing=False):
        self.data = data if data is not None else Rope()
        self.pos = 0
        self.files, self.path, self.writing = files, path, writing
        self.closed = False
        self.name = path

    def read(self, n=-1):
        self._open()
        if n is None or (type(n) is int and n < 0) or (is_sym(n) and bool(n < 0)):
            r = self.data._cut(self.pos, None)
        else:
            r = self.data._cut(self.pos, self.pos + n)
        self.pos = self.pos + r.length()
        return r.plain()

    def readinto(self, b):
        raise Unsupported("readinto of symbolic bytes")

    def getvalue(self):
        return self.data

    def getbuffer(self):
        return self.data

    def seek(self, off, whence=0):
        self._open()
        if whence == 1:
            off = self.pos + off
        elif whence == 2:
            off = self.data.length() + off
        if off < 0:
            raise OSError(22, "Invalid argument")
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def write(self, b):
        self._open()
        if not self.writing:
            raise io.UnsupportedOperation("write")
        r = Rope.of(b)
        if r is None:
            raise TypeError("a bytes-like object is required")
        self.data = self.data + r
        self.files.data[self.path] = self.data
        return r.length()

    def truncate(self, n=None):
        self.data = self.data.cut(0, self.pos if n is None else n)

    def flush(self):
        pass

    def fileno(self):
        raise Unsupported("descriptor of a file with symbolic content")

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Stat:
    def __init__(self, st, size):
        self._st, self.st_size = st, size

    def __getattr__(self, k):
        return getattr(self._st, k)


class Files:
    """Contents of the files written with ropes; an empty real file stands for each."""

    def __init__(self):
        self.data = {}

    def key(self, p):
        try:
            return os.path.abspath(os.fspath(p))
        except TypeError:
            return None

    def open(self, path, mode="r", *a, **k):
        key = self.key(path)
        if "b" in mode and key is not None:
            if mode[0] in "wx":
                builtins.open(path, mode, *a, **k).close()
                self.data[key] = Rope()
                return RopeFile(None, self, key, True)
            if mode[0] == "a":
                builtins.open(path, mode, *a, **k).close()
                return RopeFile(self.data.get(key), self, key, True)
            if key in self.data:
                builtins.open(path, "rb").close()  # the errors a missing file gives
                return RopeFile(self.data[key], self, key, "+" in mode)
        return builtins.open(path, mode, *a, **k)

    @contextlib.contextmanager
    def active(self, modules):
        """Ropes flow through these modules of litdata."""
        import struct

        saved = []

        def patch(o, n, v):
            saved.append((o, n, getattr(o, n)))
            setattr(o, n, v)

        rs, rr, rn, rp, ru = os.stat, os.remove, os.rename, os.replace, os.unlink

        def stat(p, *a, **k):
            st = rs(p, *a, **k)
            if not isinstance(p, int) and self.data:
                key = self.key(p)
                if key in self.data:
                    return _Stat(st, self.data[key].length())
            return st

        def gone(f):
            def g(p, *a, **k):
                f(p, *a, **k)
                self.data.pop(self.key(p), None)
            return g

        def moved(f):
            def g(a, b, **k):
                f(a, b, **k)
                ka, kb = self.key(a), self.key(b)
                self.data.pop(kb, None)
                if ka in self.data:
                    self.data[kb] = self.data.pop(ka)
            return g

        for m in modules:
            for n, v in list(vars(m).items()):
                if v is np:
                    patch(m, n, NumpyShim())
                elif v is struct:
                    patch(m, n, StructShim(struct))
                elif v is io.BytesIO:
                    patch(m, n, bytes_io)
        patch(os, "stat", stat)
        patch(os, "remove", gone(rr))
        patch(os, "unlink", gone(ru))
        patch(os, "rename", moved(rn))
        patch(os, "replace", moved(rp))
        patch(SX, "open_hook", self.open)
        try:
            yield self
        finally:
            for o, n, v in reversed(saved):
                setattr(o, n, v)


def bytes_io(x=b""):
    return RopeFile(x) if type(x) is Rope else io.BytesIO(x)
