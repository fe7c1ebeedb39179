"""P12: serialising and deserialising a value returns the value."""
import contextlib
import math
import struct

import numpy as np
import torch

from symx import core, world
from symx.core import is_sym, sym_and, sym_or, sym_not

from checks import ropes
from checks.ropes import Cache, blob, same, storage

import litdata.streaming.serializers as m_ser  # noqa: E402
from litdata.constants import _NUMPY_DTYPES_MAPPING, _TORCH_DTYPES_MAPPING  # noqa: E402

ID = "P12"
REACH = ["int", "out-of-range", "float", "bytes", "str", "other", "empty", "array", "tensor", "second-same", "second-refused",
         "second-stored", "objects"]
STUBS = ["tensors and arrays: objects with a real dtype, a symbolic shape and arbitrary content in C order (symbolic mode); the "
         "real libraries in replays", "numpy/torch frombuffer, reshape, empty: their documented effect on such objects",
         "numpy integer scalars: exact, refusing what 64 bits cannot hold; floats: 64 arbitrary bits"]
OUTSIDE = ("utf-8 and pickle (libraries; tried on listed values); images (P32); subclasses of numbers and arrays, which come back as "
           "the base type; a shape with a dimension of 2**32 or more (a chunk cannot hold it)")


def BOUNDS(tier):
    return {"integers": "any in [-2**80, 2**80] (refused or equal)", "floats": "any 64 bits", "bytes": "any of length up to 10**6",
            "arrays": "0..3 dimensions (thorough 4), each in [0, 1000], [0, 1000], [0, 60], [0, 12]; every dtype the format lists "
            "and others (refused or equal)", "two samples": "every pair of the listed kinds of leaves: what the second sample's "
            "leaf becomes under the format of the first"}


KINDS = ["int", "float", "bool", "str", "bytes", "none", "t1", "t1d", "t2", "t0", "n1", "n1b", "n2", "no"]


def tasks(tier):
    q = tier == "quick"
    out = [{"name": k, "kind": "scalar", "what": k} for k in ("int", "float", "bytes", "str", "other")]
    for lib in ("array", "tensor"):
        for nd in range(1 if lib == "array" else 0, 4 if q else 5):
            out.append({"name": f"{lib}{nd}", "kind": "array", "lib": lib, "nd": nd})
    for a in KINDS:
        out.append({"name": f"pair-{a}", "kind": "pair", "first": a})
    for t in out:
        t["opts"] = {"validate_cap": 60 if t["kind"] == "array" else 20}
    return out


def harness(task):
    return {"scalar": h_scalar, "array": h_array, "pair": h_pair}[task["kind"]].__get__(task)


# ------------------------------------------------------------------ symbolic tensors
class Arr:
    """An array or tensor of symbolic shape and content (in C order)."""

    def __init__(self, base, dtype, shape, content, count):
        self._base, self.dtype, self.shape, self._content, self._count = base, dtype, tuple(shape), content, count
        self.ndim = len(self.shape)

    @property
    def __class__(self):
        return self._base

    def numpy(self, *a, **k):
        if self.dtype == torch.bfloat16:
            raise TypeError("Got unsupported ScalarType BFloat16")
        return Arr(np.ndarray, self.dtype, self.shape, self._content, self._count)

    def tobytes(self, order="C"):
        if order != "C" and len(self.shape) > 1:
            return ropes.rope().fresh("order" + order, self._content.length())
        return self._content

    def reshape(self, *shape):
        return shaped(self, shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape)

    def copy(self, *a, **k):
        return self

    clone = contiguous = detach = cpu = copy

    def dim(self):
        return len(self.shape)


def product(xs):
    n = 1
    for x in xs:
        n = n * x
    return n


def isz(dtype):
    return dtype.itemsize


def shaped(a, shape):
    shape = tuple(shape)
    if not (product(shape) == a._count):
        raise ValueError("cannot reshape")
    return Arr(a._base, a.dtype, shape, a._content, a._count)


@contextlib.contextmanager
def libraries(ctx):
    if not ctx.symbolic:
        yield m_ser._get_serializers(None)
        return
    R = ropes.rope()
    base = type(m_ser.np) if type(m_ser.np).__name__ == "NumpyShim" else R.NumpyShim

    def view(kind, buf, dtype, count=-1, offset=0):
        if count != -1 or not (type(offset) is int and offset == 0):
            buf = buf.cut(offset, None if count == -1 else offset + count * isz(dtype))
        n = buf.length()
        if kind is torch.Tensor and n == 0:
            raise ValueError("both buffer length (0) and count (-1) must not be 0")
        if kind is np.ndarray and dtype.hasobject:
            raise ValueError("cannot create an OBJECT array from memory buffer")
        if isz(dtype) == 0:
            raise ValueError("itemsize cannot be zero in type")
        if not (n % isz(dtype) == 0):
            raise ValueError("buffer size must be a multiple of element size")
        return Arr(kind, dtype, (n // isz(dtype),), buf, n // isz(dtype))

    class Float64:
        """np.float64 on opaque 64 bits."""

        nbytes = 8

        __name__ = "float64"

        def __call__(self, x=0.0):
            return x if type(x) is Bits else np.float64(x)

        def __deepcopy__(self, memo):
            return self

        def __instancecheck__(self, x):
            return type(x) is Bits or isinstance(x, np.float64)

    class Np(base):
        float64 = Float64()

        def frombuffer(self, buf, dtype=float, count=-1, offset=0):
            if type(buf).__name__ != "Rope":
                return super().frombuffer(buf, dtype if dtype is not self.float64 else np.float64, count, offset)
            if dtype is self.float64:
                return [Bits(buf)]
            dt = R._rt(dtype)
            raw = all(g[0] != "blob" for g in buf.segs) and not is_sym(buf.length())
            if raw and dt in (np.uint32, np.int64, np.uint64) or (dt not in list(_NUMPY_DTYPES_MAPPING.values())):
                return super().frombuffer(buf, dtype, count, offset)
            return view(np.ndarray, buf, np.dtype(dt), count, offset)

        def reshape(self, a, shape, *r, **k):
            if type(a) is not Arr and core_has(shape):
                a = Arr(np.ndarray, a.dtype, a.shape, R.Rope.of(a.tobytes()), a.size)
            return shaped(a, shape) if type(a) is Arr else np.reshape(a, shape, *r, **k)

        def empty(self, shape, dtype=float, **k):
            if core_has(shape):
                c = product(shape)
                return Arr(np.ndarray, np.dtype(dtype), shape, R.fresh("uninitialised", c * isz(np.dtype(dtype))), c)
            return super().empty(shape, dtype, **k)

    class Torch:
        def __getattr__(self, k):
            return getattr(torch, k)

        def frombuffer(self, buf, *, dtype, count=-1, offset=0, **k):
            if type(buf).__name__ != "Rope":
                return torch.frombuffer(buf, dtype=dtype, count=count, offset=offset)
            return view(torch.Tensor, buf, dtype, count, offset)

        def Size(self, x):
            return tuple(x) if core_has(x) else torch.Size(x)

        def empty(self, shape, dtype=None, **k):
            if core_has(shape):
                c = product(shape)
                return Arr(torch.Tensor, dtype, shape, R.fresh("uninitialised", c * isz(dtype)), c)
            return torch.empty(shape, dtype=dtype, **k)

        def reshape(self, a, shape):
            return shaped(a, shape) if type(a) is Arr else torch.reshape(a, shape)

    old = m_ser.np, m_ser.torch
    m_ser.np, m_ser.torch = Np(), Torch()
    try:
        S = m_ser._get_serializers(None)
        # the numbers, on the libraries as they are here
        S["int"], S["float"] = type(S["int"])(), type(S["float"])()
        yield S
    finally:
        m_ser.np, m_ser.torch = old


def core_has(xs):
    return any(is_sym(x) for x in xs) if isinstance(xs, (tuple, list)) else is_sym(xs)


class Bits:
    """A float of 64 arbitrary bits."""

    def __init__(self, rope):
        self.rope = rope

    @property
    def __class__(self):
        return float

    def tobytes(self):
        return self.rope

    def item(self):
        return self

    def __eq__(self, o):
        return True if o is self else NotImplemented

    def __ne__(self, o):
        return False if o is self else NotImplemented

    def __hash__(self):
        return id(self)


# ------------------------------------------------------------------ one value
class Refused(Exception):
    pass


def there_and_back(S, v):
    for name, s in S.items():
        if s.can_serialize(v):
            try:
                data, fmt = s.serialize(v)
            except (KeyError, TypeError, ValueError, OverflowError, RuntimeError, AttributeError) as e:
                raise Refused(str(type(e)))
            if fmt and ":" in fmt:
                s.setup(fmt)
            if hasattr(s, "size"):
                n = data.length() if ropes.ctx_rope(data) else len(data)
                if not (n == s.size):
                    return "length of " + name
            return s.deserialize(data)
    raise Refused("no serializer")


def lifted(x):
    if type(x) is Arr or not isinstance(x, (np.ndarray, torch.Tensor)):
        return x
    t = isinstance(x, torch.Tensor)
    return Arr(torch.Tensor if t else np.ndarray, x.dtype, tuple(x.shape), ropes.rope().Rope.of(bits(x) if t else x.tobytes()),
               x.numel() if t else x.size)


def equal(a, b):
    """Condition: b is the value a."""
    if type(a) is Bits or type(b) is Bits:
        return type(a) is type(b) and same(a.rope, b.rope)
    if type(a) is Arr or type(b) is Arr:
        a, b = lifted(a), lifted(b)
        if type(a) is not type(b) or a._base is not b._base or a.dtype != b.dtype or len(a.shape) != len(b.shape):
            return False
        return sym_and(*[x == y for x, y in zip(a.shape, b.shape)], same(a._content, b._content))
    if isinstance(a, (torch.Tensor, np.ndarray)) and a.ndim == 0 and number(b):
        return equal(a.item(), b)  # under the format of a number: the number
    if isinstance(b, np.ndarray) and b.ndim == 0 and isinstance(a, np.generic):
        return a.dtype == b.dtype and equal(a, b.item())  # under the format of arrays
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and bits(a) == bits(b)
    if isinstance(a, np.ndarray):
        if not (isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape):
            return False
        return a.tolist() == b.tolist() if a.dtype.hasobject else a.tobytes() == b.tobytes()
    if isinstance(b, (torch.Tensor, np.ndarray)):
        return False
    if is_sym(a) or is_sym(b):
        return a == b if number(a) and number(b) else False
    if number(a) and number(b):
        return a == b or (a != a and b != b)
    if ropes.ctx_rope(a) or ropes.ctx_rope(b):
        return same(a, b)
    return type(a) is type(b) and a == b


def number(x):
    return is_sym(x) or isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_))


def bits(t):
    return t.contiguous().reshape(-1).view(torch.uint8).numpy().tobytes() if t.numel() and t.dim() else repr(t.tolist() if t.numel() else "").encode()[2:]


def h_scalar(task, ctx):
    what = task["what"]
    with storage(ctx), libraries(ctx) as S:
        if what == "int":
            v = ctx.int("value", -(2 ** 80), 2 ** 80)
            ctx.reach("out-of-range", sym_or(v < -(2 ** 63), v >= 2 ** 63))
            ok = sym_and(v >= -(2 ** 63), v < 2 ** 63)
        elif what == "float":
            b = ctx.int("bits", 0, 2 ** 64 - 1)
            v = Bits(ropes.rope().word(b, 8)) if ctx.symbolic else struct.unpack("<d", struct.pack("<Q", int(b)))[0]
            ok = True
        elif what == "bytes":
            v, ok = blob(ctx, "len", 0, 10 ** 6), True
            ctx.reach("empty", (v.length() if ctx.symbolic else len(v)) == 0)
        elif what == "str":
            v, ok = ctx.pick("value", ["", "a", "é\U0001F600\u0000x", "/etc/hostname", "x" * 300, "nosuch.mp4", "a.tif"]), True
        else:
            v, ok = ctx.pick("value", [None, True, False, {1, 2}, 1 + 2j, np.int32(3), np.float32(1.5), np.bool_(True), range(3),
                                       np.float64("nan"), -0.0, np.array(5), np.array([1, None], object), np.array([[None]], object),
                                       np.zeros((0,), object)]), True
            ctx.reach("objects", isinstance(v, np.ndarray) and v.dtype.hasobject)
        try:
            got = there_and_back(S, v)
        except Refused:
            ctx.check(sym_not(ok), "a plain value is refused")
            return
        ctx.check(equal(v, got), "the value is not the one that was serialised")
        ctx.reach(what)


DIMS = {0: [], 1: [1000], 2: [1000, 1000], 3: [60, 60, 60], 4: [12, 12, 12, 12]}


def h_array(task, ctx):
    nd, lib = task["nd"], task["lib"]
    if lib == "tensor":
        dts = sorted(set(_TORCH_DTYPES_MAPPING.values()), key=str) + [torch.uint16]
    else:
        dts = [d for d in dict.fromkeys(_NUMPY_DTYPES_MAPPING.values()) if d.itemsize and not d.hasobject]
        dts += [np.dtype(">i4"), np.dtype("longdouble"), np.dtype("M8[D]")]
    dt = ctx.pick("dtype", dts)
    shape = [ctx.int(f"dim{i}", 0, m) for i, m in enumerate(DIMS[nd])]
    with storage(ctx), libraries(ctx) as S:
        count = product(shape)
        if ctx.symbolic:
            if lib == "array" and nd == 0:
                raise core.Infeasible()  # a number for pickle: listed with the other values
            n = ctx.int("count", 0, 10 ** 7)
            ctx.assume(n == count)
            v = Arr(torch.Tensor if lib == "tensor" else np.ndarray, dt, shape, ropes.rope().fresh("content", n * isz(dt)), n)
        else:
            n = int(count)
            raw = bytes((i * 7 + 1) % 251 for i in range(n * isz(dt)))
            if dt == torch.bool or dt == np.dtype(bool):
                raw = bytes(x % 2 for x in raw)
            if lib == "tensor":
                v = torch.frombuffer(bytearray(raw), dtype=dt) if n else torch.empty(0, dtype=dt)
            else:
                v = np.frombuffer(raw, dt)
            v = v.reshape([int(x) for x in shape])
            if nd == 2:  # not contiguous
                v = v.T.copy().T if lib == "array" else v.t().contiguous().t()
        try:
            got = there_and_back(S, v)
        except Refused:
            ctx.check(dt not in dts[:-1] if lib == "tensor" else dt in dts[-3:] or dt == torch.bfloat16, "a listed type is refused") \
                if dt != torch.bfloat16 else None
            return
        ctx.check(equal(v, got), "the array is not the one that was serialised")
        ctx.reach(lib)
        ctx.reach("empty", count == 0)


# ------------------------------------------------------------------ two samples under one format
def leaf(kind, ctx, name, other="int"):
    if kind == "int" and other not in ("int", "bool"):  # converted by a library
        return ctx.pick(name, [0, 1, 2 ** 53 + 1, -(2 ** 66)])
    if kind == "int":
        return ctx.int(name, -(2 ** 70), 2 ** 70)
    n = ctx.pick(name, [0, 1, 2])
    return {"float": [1.0, 1.5, float(2 ** 60)], "bool": [True, False, True], "str": ["", "1", "ab"],
            "bytes": [b"", b"\x01", b"12345678"], "none": [None, np.bool_(True), 1j],
            "t1": [torch.zeros(0), torch.arange(1.0), torch.arange(2.0)],
            "t1d": [torch.zeros(0).double(), torch.arange(1.0).double(), torch.arange(2.0).double()],
            "t2": [torch.zeros(0, 2), torch.ones(1, 2), torch.ones(2, 1).half()],
            "t0": [torch.tensor(1), torch.tensor(1.5), torch.tensor(True)],
            "n1": [np.zeros(0, np.int16), np.arange(1, dtype=np.int16), np.arange(2, dtype=np.int16)],
            "n1b": [np.zeros(0, np.uint8), np.arange(1, dtype=np.uint8), np.arange(8, dtype=np.uint8)],
            "n2": [np.zeros((0, 2)), np.ones((1, 2)), np.ones((2, 1), np.int8)],
            "no": [np.array([None]), np.array([1, "a"], object), np.array(3)]}[kind][n]


def h_pair(task, ctx):
    with storage(ctx) as d, libraries(ctx) as S:
        first = leaf(task["first"], ctx, "first")
        kind = ctx.pick("kind", KINDS)
        second = leaf(kind, ctx, "second", task["first"])
        c = Cache(d, chunk_size=2, serializers=dict(S))
        try:
            c[0] = {"x": first}
        except (KeyError, TypeError, ValueError, OverflowError, RuntimeError, AttributeError):
            ctx.check(task["first"] == "int" and sym_or(first < -(2 ** 63), first >= 2 ** 63), "a plain value is refused")
            return
        kept = [first, second]
        try:
            with world.quiet():
                c[1] = {"x": second}
            ctx.reach("second-stored")
        except (KeyError, TypeError, ValueError, OverflowError, RuntimeError, AttributeError):
            ctx.reach("second-refused")
            if kind == task["first"] and kind not in ("int", "none", "no"):
                ctx.check(False, "a value of the same type is refused")
            kept = [first]
        try:
            c.done()
        except (TypeError, ValueError):
            return
        c.merge()
        c = Cache(d, chunk_size=2, serializers=dict(S))
        for i, v in enumerate(kept):
            ctx.check(equal(v, c[i]["x"]), "the leaf read is not the leaf written")
        ctx.reach("second-same", kind == task["first"])
