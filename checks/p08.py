"""P08: reading a written chunk returns every sample's exact bytes."""
from symx import core, world
from symx.core import sym_and

from checks import ropes
from checks.ropes import Cache, blob, same, shape, storage

ID = "P08"
REACH = ["empty-leaf", "two-leaves", "two-chunks", "read-twice", "compressed", "subset", "reopened", "huge", "refused"]
STUBS = ["content of the samples: arbitrary bytes (uninterpreted blobs), lengths symbolic; files hold symbolic bytes",
         "numpy on sizes and offsets (array, cumsum, astype, +=, tobytes, frombuffer): exact integers modulo the width",
         "zstd: an ideal invertible function with any output length (symbolic mode); the real one in replays",
         "the reader's download thread runs in step with the reader", "json: symbolic numbers", "time.sleep: advances a clock"]
BUDGET = {"quick": 400, "thorough": 3000}


def BOUNDS(tier):
    q = tier == "quick"
    return {"samples": f"1..{5 if q else 6}", "leaves per sample": "1..3", "leaf length": "any in [0, 10**6] bytes; "
            "up to 3 samples of one leaf with any length in [0, 2**33] (written and read back exactly, or refused)",
            "reads": "two reads at any positions", "chunks": "1..3 (by samples per chunk)",
            "small": "every leaf length in 0..2, real bytes, files and numpy"}


OUTSIDE = ("leaf serializers other than bytes "
           "and integers (P12); downloads (P22, P23)")


def tasks(tier):
    q = tier == "quick"
    out = []
    for sh, k, top in (("one", 1, 5), ("list", 2, 3), ("dict", 3, 2), ("mixed", 1, 3)):
        for n in range(1, top + (1 if q else 2)):
            for cs in sorted({1, 2, n}):
                if cs > n:
                    continue
                for comp in (False, True):
                    if comp and (sh not in ("one", "list") or n > 3):
                        continue
                    out.append({"name": f"{sh}{k}-n{n}-cs{cs}-{'zip' if comp else 'raw'}", "kind": "full", "shape": sh,
                                "k": k, "n": n, "cs": cs, "zip": comp, "small": False, "L": 10 ** 6,
                                "opts": {"validate_cap": 2}})
    for sh, k, n in (("one", 1, 2), ("one", 1, 3), ("list", 2, 2)):
        for comp in (False, True):
            out.append({"name": f"small-{sh}{k}-n{n}-{'zip' if comp else 'raw'}", "kind": "full", "shape": sh, "k": k,
                        "n": n, "cs": 2, "zip": comp, "small": True, "L": 2 if not comp else 1,
                        "opts": {"validate_cap": 2}})
    for n in (1, 2, 3):
        out.append({"name": f"huge-n{n}", "kind": "huge", "n": n, "opts": {"validate_cap": 2}})
    out.sort(key=lambda t: -t.get("k", 1) * t["n"])
    return out


def harness(task):
    return (h_full if task["kind"] == "full" else h_huge).__get__(task)


def h_full(task, ctx):
    n, k = task["n"], task["k"]
    with storage(ctx, task["small"], 10 ** 6 if task["zip"] else None) as d:
        leaves = [[blob(ctx, f"len{i}_{j}", 0, task["L"], task["small"]) for j in range(k)] for i in range(n)]
        comp = "zstd" if task["zip"] else None
        c = Cache(d, chunk_size=task["cs"], compression=comp)
        for i in range(n):
            c[i] = shape(task["shape"], leaves[i])
        c.done()
        c.merge()
        if task["small"] or ctx.pick("reopen", [False, True]):
            c = Cache(d, chunk_size=task["cs"], compression=comp)
            ctx.reach("reopened")
        ctx.check(len(c) == n, "the number of samples differs")
        a = ctx.pick("first", list(range(n)))
        b = ctx.pick("second", list(range(n)))
        for i in (a, b):
            got = c[i]
            ctx.check(same(got, shape(task["shape"], leaves[i])), "the sample read is not the sample written")
        ctx.reach("read-twice", a == b)
        ctx.reach("subset", a != b)
        ctx.reach("compressed", task["zip"])
        ctx.reach("two-leaves", k > 1)
        ctx.reach("two-chunks", n > task["cs"])
        ctx.reach("empty-leaf", ropes_len(leaves[a][0]) == 0)


HUGE = 2 ** 33


def h_huge(task, ctx):
    """Samples beyond what the 32-bit offsets can express: written and read back exactly, or refused."""
    n = task["n"]
    with storage(ctx) as d:
        if not ctx.symbolic:
            return huge_concrete(task, ctx, d)
        leaves = [blob(ctx, f"len{i}", 0, HUGE) for i in range(n)]
        total = core.sym_sum([x.length() for x in leaves])
        c = Cache(d, chunk_size=n)
        try:
            for i in range(n):
                c[i] = leaves[i]
            c.done()
        except (ValueError, OverflowError):
            ctx.check(total >= 2 ** 32 - 4096, "a chunk the format can hold is refused")
            ctx.reach("refused")
            return
        c.merge()
        i = ctx.pick("first", list(range(n)))
        ctx.check(same(c[i], leaves[i]), "the sample read is not the sample written")
        ctx.reach("huge", total > 2 ** 31)


def huge_concrete(task, ctx, d):
    """The same on plain values, without gigabytes of memory: the writer is given entries whose recorded size is the
    huge one, and the offsets it stores are compared."""
    import struct
    from litdata.streaming.writer import BinaryWriter, Item

    n = task["n"]
    lens = [ctx.int(f"len{i}", 0, HUGE) for i in range(n)]
    try:
        w = BinaryWriter(d, chunk_size=n)
        w._data_format = ["bytes"]
        for i, b in enumerate(lens):
            w._serialized_items[i] = Item(index=i, data=b"", bytes=b + 4)
        make = w._create_chunk
    except (AttributeError, TypeError):
        raise core.Infeasible()
    try:
        data = make("chunk-0-0.bin", on_done=True)
    except (ValueError, OverflowError):
        ctx.check(sum(lens) >= 2 ** 32 - 4096, "a chunk the format can hold is refused")
        return
    got = struct.unpack(f"<{n + 2}I", data[: 4 * (n + 2)])
    pos, want = 4 * (n + 2), [n]
    for b in lens + [0]:
        want.append(pos)
        pos += b + 4
    ctx.check(list(got) == want, "the sample read is not the sample written")


def ropes_len(x):
    return x.length() if ropes.ctx_rope(x) else len(x)
