"""Shared harness pieces for the storage-format properties: samples of symbolic length written by the real writer and
read back by the real reader."""
import contextlib
import os

from symx import core, world
from symx.core import sym_and, sym_or, sym_not, is_sym

world.install()

import litdata.streaming.writer as m_writer  # noqa: E402
import litdata.streaming.item_loader as m_loader  # noqa: E402
import litdata.streaming.serializers as m_ser  # noqa: E402
import litdata.streaming.config as m_config  # noqa: E402
import litdata.streaming.reader as m_reader  # noqa: E402
import litdata.streaming.compression as m_comp  # noqa: E402
from litdata.streaming import Cache  # noqa: E402
from litdata.utilities.encryption import Encryption  # noqa: E402

MODULES = [m_writer, m_loader, m_ser, m_config, m_reader]


def rope():
    from symx import rope as r

    return r


def blob(ctx, name, lo, hi, small=False):
    """Bytes of any content and any length in [lo, hi].  small: ordinary bytes of every length in the range."""
    n = ctx.int(name, lo, hi)
    if ctx.symbolic and not small:
        return rope().fresh(name, n)
    n = int(n)
    seed = sum(ord(c) * (i + 1) for i, c in enumerate(name))
    return bytes((seed * 31 + i * 7 + (i >> 8)) % 256 for i in range(n))


def same(a, b):
    """Condition: the two values are equal (bytes compared for every content)."""
    if ctx_rope(a) or ctx_rope(b):
        r = rope().Rope
        x = r.of(a)
        return False if x is None else x.same(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return sym_and(type(a) is type(b), len(a) == len(b), *[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return sym_and(list(a) == list(b), *[same(a[k], b[k]) for k in a if k in b])
    return a == b


def ctx_rope(a):
    return type(a).__name__ == "Rope"


class IdealZip:
    """An ideal compressor: decompress(compress(x)) == x, any compressed length."""

    name, extension = "zstd", "zstd"

    def __init__(self, ctx, hi):
        self.ctx, self.hi, self.n = ctx, hi, 0

    def compress(self, data):
        self.n += 1
        R = rope()
        return R.fresh(f"zip{self.n}", self.ctx.int(f"ziplen{self.n}", 1, self.hi), ("zip", R.Rope.of(data)))

    def decompress(self, data):
        return opened(data, "zip")


class BadData(Exception):
    pass


def opened(data, kind, key=None):
    """The plaintext, when data is exactly what the ideal function produced."""
    R = rope()
    r = R.Rope.of(data)
    segs = r.normal() if r is not None else []
    if len(segs) == 1 and segs[0][0] == "blob" and segs[0][1].meta and segs[0][1].meta[0] == kind:
        b = segs[0][1]
        if sym_and(segs[0][2] == 0, segs[0][3] == b.length) and (key is None or b.meta[2] == key):
            return b.meta[1].plain()
    raise BadData("not the output of " + kind)


class IdealCipher(Encryption):
    """An ideal cipher: only the same key decrypts, anything else raises."""

    def __init__(self, ctx, key, level, hi, algorithm="fernet", overhead=True):
        self.ctx, self.key, self.level, self.hi, self._alg, self.n = ctx, key, level, hi, algorithm, 0

    @property
    def algorithm(self):
        return self._alg

    def encrypt(self, data):
        if self.ctx.symbolic and any(ctx_rope(x) for x in [data]):
            self.n += 1
            R = rope()
            return R.fresh(f"enc{self.key}{self.n}", self.ctx.int(f"enclen{self.key}{self.n}", 1, self.hi),
                           ("enc", R.Rope.of(data), self.key))
        k = self.key.encode()
        return b"ENC" + bytes([len(k)]) + k + bytes(x ^ 0x5A for x in data) + b"." * (len(data) % 3)+ bytes([len(data) % 3])

    def decrypt(self, data):
        if self.ctx.symbolic and any(ctx_rope(x) for x in [data]):
            return opened(data, "enc", self.key)
        k = self.key.encode()
        head = b"ENC" + bytes([len(k)]) + k
        if bytes(data[:len(head)]) != head:
            raise BadData("wrong key")
        pad = data[-1]
        return bytes(x ^ 0x5A for x in data[len(head): len(data) - 1 - pad])

    def state_dict(self):
        return {"algorithm": self._alg, "level": self.level}

    def save(self, p):
        raise NotImplementedError

    @classmethod
    def load(cls, p, password):
        raise NotImplementedError


@contextlib.contextmanager
def storage(ctx, small=False, zip_hi=None):
    """Scratch directory; files may hold symbolic bytes; the reader's thread runs in step."""
    with contextlib.ExitStack() as st:
        d = st.enter_context(world.world(ctx))
        st.enter_context(world.env())
        st.enter_context(world.quiet())
        if ctx.symbolic:
            st.enter_context(world.stepped_prepare_thread())
            if not small:
                st.enter_context(rope().Files().active(MODULES))
                # the numbers, on numpy as the files see it
                old_numbers = {k: m_ser._SERIALIZERS[k] for k in ("int", "float") if k in m_ser._SERIALIZERS}
                st.callback(lambda: m_ser._SERIALIZERS.update(old_numbers))
                m_ser._SERIALIZERS.update({k: type(v)() for k, v in old_numbers.items()})
                if zip_hi:
                    old = dict(m_comp._COMPRESSORS)
                    m_comp._COMPRESSORS["zstd"] = IdealZip(ctx, zip_hi)
                    st.callback(lambda: m_comp._COMPRESSORS.update(old))
        yield d


def shape(kind, leaves):
    if kind == "one":
        return leaves[0]
    if kind == "list":
        return list(leaves)
    if kind == "dict":
        return {f"k{i}": v for i, v in enumerate(leaves)}
    if kind == "mixed":  # a fixed-size leaf first
        return {"n": 7, "b": list(leaves)}
    raise ValueError(kind)
