"""P11: token blocks tile the token stream of each chunk."""
import contextlib
import json
import os

import numpy as np
import torch

from symx import core, world
from symx.core import is_sym, ite, sym_and, sym_not, sym_or, sym_sum

from checks import ropes
from checks.ropes import Cache, storage

from litdata import StreamingDataset  # noqa: E402
from litdata.streaming.item_loader import TokensLoader  # noqa: E402
from litdata.streaming.serializers import Serializer  # noqa: E402
import litdata.streaming.item_loader as m_loader  # noqa: E402
import litdata.utilities.dataset_utilities as m_util  # noqa: E402

ID = "P11"
REACH = ["tail", "no-full-block", "empty-sample", "several-chunks", "roi", "numpy", "tensor", "block-over-samples", "kept"]
STUBS = ["token values: arbitrary bytes (uninterpreted blobs) of symbolic length; the token tensors of symbolic length are "
         "objects with a shape and a serializer (the extension point of the cache) returning their bytes",
         "np.memmap, memoryview and torch/numpy.frombuffer: views of symbolic file content that keep track of their map being "
         "closed", "json: symbolic numbers", "the reader's download thread runs in step with the reader"]
OUTSIDE = "compressed or remote token datasets (P22, P23); samples of more than one leaf (the loader documents a single one)"
ITEM = {"tensor": {torch.int64: 8, torch.int32: 4, torch.uint8: 1, torch.int16: 2},
        "numpy": {np.dtype("int64"): 8, np.dtype("uint16"): 2, np.dtype("int32"): 4, np.dtype("uint8"): 1}}


def BOUNDS(tier):
    q = tier == "quick"
    return {"samples": f"1..{4 if q else 5}, each of any number of tokens (in [0, 10**6] for one access, [0, {5 if q else 7}] for complete iterations)",
            "block size": "1, 2, 3, 1000 (one access), 1..3 (iteration)", "tokens per chunk limit": "any in [1, 10**6] (access), 2..6 "
            "(iteration)", "types": "tensors of int64, int32, int16, uint8; arrays of int64, int32, uint16, uint8",
            "region": "any region of blocks per chunk (access)", "index": "any"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in range(1, (3 if q else 5) + 1):
        for kind in ("tensor", "numpy"):
            for dt in range(4) if n == 2 else (n % 4,):
                for B in (1, 2, 3, 1000):
                    if n > 1 and q and (B + dt + n) % 2:
                        continue
                    for roi in (False, True):
                        if roi and (n > 2 or B == 3):
                            continue
                        out.append({"name": f"one-{kind}{dt}-n{n}-b{B}-{'roi' if roi else 'all'}", "kind": "one", "lib": kind, "dt": dt,
                                    "n": n, "B": B, "roi": roi, "T": 10 ** 6})
    for n in range(1, (3 if q else 4) + 1):
        for B in (1, 2, 3):
            for shuffle in (False, True):
                if n == 3 and (shuffle or B == 1) and q:
                    continue
                kind = "tensor" if (n + B) % 2 else "numpy"
                out.append({"name": f"iter-{kind}-n{n}-b{B}-{shuffle}", "kind": "iter", "lib": kind, "dt": (n + B) % 4, "n": n,
                            "B": B, "roi": False, "shuffle": shuffle, "T": (5 if n < 3 else 3) if q else 7})
    for t in out:
        t["opts"] = {"validate_cap": 1, "max_paths": 6000}
    out.sort(key=lambda t: (t["kind"] != "iter", -t["n"]))
    return out


# ------------------------------------------------------------------ symbolic tokens and maps
class Tokens:
    """A one-dimensional array of symbolic length."""

    def __init__(self, rope, n):
        self.rope, self.shape = rope, (n,)


class TokenBytes(Serializer):
    def __init__(self, name, index):
        self.name, self.index = name, index

    def serialize(self, item):
        return item.rope, f"{self.name}:{self.index}"

    def deserialize(self, data):
        raise NotImplementedError

    def can_serialize(self, item):
        return isinstance(item, Tokens)

    def setup(self, *a):
        pass


class Map:
    """np.memmap of a symbolic file."""

    def __init__(self, rope):
        self.rope, self.closed = rope, False

    @property
    def _mmap(self):
        return self

    def close(self):
        self.closed = True

    def __len__(self):
        return self.rope.length()


class Block:
    """An array whose memory is a part of a map (owner) or its own."""

    def __init__(self, rope, dtype, count, owner):
        self.rope, self.dtype, self.count, self.owner = rope, dtype, count, owner

    def clone(self, *a, **k):
        return Block(self.rope, self.dtype, self.count, None)

    copy = clone


class TorchShim:
    def __getattr__(self, k):
        return getattr(torch, k)

    def frombuffer(self, buffer, *, dtype, count=-1, offset=0, **k):
        return take_block(buffer, dtype, count, offset, dtype.itemsize)


def take_block(m, dtype, count, offset, itemsize):
    if m.closed:
        raise ValueError("the map is closed")
    n = m.rope.length()
    end = offset + count * itemsize
    if sym_or(offset < 0, end > n):
        raise ValueError("buffer is smaller than requested size")
    return Block(m.rope.cut(offset, end), dtype, count, m)


@contextlib.contextmanager
def maps(ctx, kept):
    """Records the maps; symbolic ones in symbolic mode."""
    saved = []

    def patch(o, n, v):
        saved.append((o, n, o.__dict__.get(n, saved)))
        setattr(o, n, v)

    real = np.memmap
    if ctx.symbolic:
        R = ropes.rope()
        shim = m_loader.np
        files = R.SX.open_hook.__self__

        class Shim(type(shim)):
            def memmap(self, path, mode="r+", offset=0, order="C", **k):
                data = files.data[files.key(path)]
                if data.length() <= offset:
                    raise ValueError("mmap offset is greater than file size")
                m = Map(data.cut(offset, None))
                kept.append(m)
                return m

            def frombuffer(self, buf, dtype=float, count=-1, offset=0):
                if type(buf) is Map:
                    return take_block(buf, dtype, count, offset, dtype.itemsize)
                return super().frombuffer(buf, dtype, count, offset)

        patch(m_loader, "np", Shim())
        patch(m_loader, "torch", TorchShim())
        patch(m_loader, "memoryview", lambda m: m if type(m) is Map else memoryview(m))
    else:
        class Np:
            def __getattr__(self, k):
                return getattr(np, k)

            def memmap(self, *a, **k):
                m = real(*a, **k)
                kept.append((m.__array_interface__["data"][0], m.nbytes, m._mmap))
                return m

        patch(m_loader, "np", Np())
    try:
        yield
    finally:
        for o, n, v in reversed(saved):
            if v is saved:
                delattr(o, n)
            else:
                setattr(o, n, v)


def alive(b, kept):
    """The memory of a delivered block is still there."""
    if isinstance(b, Block):
        return b.owner is None or not b.owner.closed
    p = b.data_ptr() if isinstance(b, torch.Tensor) else b.__array_interface__["data"][0]
    return not any(a <= p < a + n and m.closed for a, n, m in kept)


# ------------------------------------------------------------------ the dataset
def make(task, ctx, d):
    """Writes the samples; returns per chunk the token bytes and number of tokens."""
    n, T = task["n"], task["T"]
    dtype, isz = list(ITEM[task["lib"]].items())[task["dt"]]
    counts = [ctx.int(f"tokens{i}", 0, T) for i in range(n)]
    iter_ = task["kind"] == "iter"
    cap = ctx.int("per_chunk", 2, 6) if iter_ else ctx.int("per_chunk", 1, 10 ** 6)
    kw = {}
    if ctx.symbolic:
        R = ropes.rope()
        parts = [R.fresh(f"tok{i}", c * isz) for i, c in enumerate(counts)]
        samples = [Tokens(p, c) for p, c in zip(parts, counts)]
        table = (m_loader._TORCH_DTYPES_MAPPING if task["lib"] == "tensor" else m_loader._NUMPY_DTYPES_MAPPING)
        name = "no_header_" + task["lib"]
        kw["serializers"] = {name: TokenBytes(name, next(k for k, v in table.items() if v == dtype))}
    else:
        raw = [np.arange(1 + 7919 * i, 1 + 7919 * i + c * isz).astype(np.uint8).tobytes() for i, c in enumerate(counts)]
        parts = raw
        samples = [np.frombuffer(r, np.uint8).copy() for r in raw]
        samples = [(torch.from_numpy(s).view(dtype) if len(s) else torch.empty(0, dtype=dtype)) if task["lib"] == "tensor"
                   else s.view(dtype) for s in samples]
    c = Cache(d, chunk_size=cap, item_loader=TokensLoader(), **kw)
    for i in range(n):
        c[i] = samples[i]
        ctx.reach("empty-sample", counts[i] == 0)
    c.done()
    c.merge()
    idx = json.load(open(os.path.join(d, "index.json")))
    chunks, first = [], 0
    for ch in idx["chunks"]:
        k = int(ch["chunk_size"])
        mine = parts[first: first + k]
        data = mine[0]
        for x in mine[1:]:
            data = data + x
        chunks.append((data, sym_sum(counts[first: first + k])))
        if k > 1:
            ctx.reach("block-over-samples", sym_and(counts[first] % task["B"] != 0, counts[first + 1] >= task["B"]))
        first += k
    ctx.check(first == n, "the chunks do not hold all the samples")
    return chunks, isz, dtype, kw


def harness(task):
    return h.__get__(task)


def h(task, ctx):
    B = task["B"]
    kept = []
    with storage(ctx) as d, maps(ctx, kept):
        chunks, isz, dtype, kw = make(task, ctx, d)
        blocks = [t // B for _, t in chunks]
        total = sym_sum(blocks)
        ctx.reach(task["lib"])
        ctx.reach("several-chunks", len(chunks) > 1)
        ctx.reach("tail", sym_or(*[b * B != t for b, (_, t) in zip(blocks, chunks)]))
        ds = StreamingDataset(d, item_loader=TokensLoader(block_size=B), shuffle=task.get("shuffle", False), drop_last=False, **kw)
        if task["roi"]:
            regs = []
            for i, b in enumerate(blocks):
                lo, hi = ctx.int(f"from{i}", 0, 10 ** 6), ctx.int(f"to{i}", 0, 10 ** 6)
                ctx.assume(sym_and(lo <= hi, hi <= b))
                regs.append((lo, hi))
            ds.region_of_interest = regs
            ctx.reach("roi")
        else:
            regs = [(0, b) for b in blocks]
        want = sym_sum([b - a for a, b in regs])
        ctx.check(len_of(ds) == want, "the declared length is not the number of full windows")
        ctx.reach("no-full-block", total == 0)
        if task["kind"] == "one":
            x = ctx.int("index", 0, 3 * 10 ** 6)
            ctx.assume(x < want)
            got = ds[x]
            # which chunk, which block of it
            at = x
            for (data, _), (a, b) in zip(chunks, regs):
                if at < b - a:
                    check_block(ctx, got, data, a + at, B, isz, dtype)
                    break
                at = at - (b - a)
            else:
                ctx.check(False, "an index beyond the length returned a block")
            ctx.check(alive(got, kept), "the memory of the block was released")
            return
        out = list(ds)
        expect = [(c, j) for c, b in enumerate(blocks) for j in range(int(b))]
        ctx.check(len(out) == len(expect), "number of blocks delivered")
        for b in out:
            ctx.check(alive(b, kept), "the memory of a delivered block was released")
        ctx.reach("kept", len(out) > 1)
        if task["shuffle"]:
            # each window exactly once: every delivered block must be the one the reader was asked for
            ctx.check(once(out, expect, chunks, B, isz), "the windows delivered are not every full window once")
        else:
            for b, (c, j) in zip(out, expect):
                check_block(ctx, b, chunks[c][0], j, B, isz, dtype)
        # a second epoch, then accesses at both ends
        if expect:
            check_block(ctx, ds[0], chunks[expect[0][0]][0], expect[0][1], B, isz, dtype)
            check_block(ctx, ds[len(expect) - 1], chunks[expect[-1][0]][0], expect[-1][1], B, isz, dtype)
            ctx.check(len(list(ds)) == len(expect), "number of blocks of the second epoch")


def len_of(ds):
    return type(ds).__len__(ds)


def raw(b):
    if isinstance(b, Block):
        return b.rope
    return b.numpy().tobytes() if isinstance(b, torch.Tensor) else b.tobytes()


def window(data, j, B, isz):
    if ropes.ctx_rope(data):
        return data.cut(j * B * isz, (j + 1) * B * isz)
    return data[j * B * isz: (j + 1) * B * isz]


def check_block(ctx, got, data, j, B, isz, dtype):
    ctx.check(got.dtype == dtype, "the type of the tokens changed")
    ctx.check(ropes.same(raw(got), window(data, j, B, isz)), "the block is not the window of the chunk at its position")


def once(out, expect, chunks, B, isz):
    """A matching between the delivered blocks and the windows (contents of different windows differ in general, so the
    first window with the same content decides)."""
    left = list(expect)
    for b in out:
        for w in left:
            if bool(ropes.same(raw(b), window(chunks[w[0]][0], w[1], B, isz))):
                left.remove(w)
                break
        else:
            return False
    return not left
