"""P09: the writer stores every sample once, in order, in chunks within the limits, and the index lists exactly them."""
import json
import os

from symx import core, world
from symx.core import implies, sym_and, sym_or, sym_sum

from checks import ropes
from checks.ropes import Cache, blob, same, storage

from litdata.streaming.item_loader import PyTreeLoader  # noqa: E402
from litdata.streaming.writer import BinaryWriter  # noqa: E402

ID = "P09"
REACH = ["by-bytes", "by-size", "oversized-alone", "several-chunks", "weighted", "eleven-workers", "offset"]
STUBS = ["content of the samples: arbitrary bytes (uninterpreted blobs), lengths symbolic; files hold symbolic bytes",
         "numpy on sizes and offsets: exact integers modulo the width", "json: symbolic numbers",
         "the reader's download thread runs in step with the reader"]
OUTSIDE = "samples added out of index order (the writer's documentation excludes them); compression (P08), encryption (P27)"
L = 10 ** 6


def BOUNDS(tier):
    return {"samples": f"1..{'4 (chunk_bytes), 5 (chunk_size)' if tier == 'quick' else 6} of any length in [0, 10**6] ([1, 10**6] with three or more)", "limit": "chunk_bytes: any in "
            "[1, 3*10**6]; chunk_size: any in [1, 4]; weighted samples (item loader with a dimension, e.g. tokens): any weight "
            "in [1, 10] and chunk_size in [1, 20]", "first index": "0 or 5", "workers merged": "1, 2, 3, 11, 12 with 0..2 chunks of 1..2 "
            "samples each"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in range(1, (5 if q else 6) + 1):
        if n < 5 or not q:
            out.append({"name": f"bytes-n{n}", "kind": "write", "n": n, "limit": "bytes"})
        out.append({"name": f"size-n{n}", "kind": "write", "n": n, "limit": "size"})
        if n < 5:
            out.append({"name": f"weighted-n{n}", "kind": "write", "n": n, "limit": "weight"})
    for w in (1, 2, 3, 11, 12):
        out.append({"name": f"merge-w{w}", "kind": "merge", "w": w, "n": 0})
    for t in out:
        t["opts"] = {"validate_cap": 2}
    out.sort(key=lambda t: -t["n"])
    return out


def harness(task):
    return (h_write if task["kind"] == "write" else h_merge).__get__(task)




def h_write(task, ctx):
    n, limit = task["n"], task["limit"]
    with storage(ctx) as d:
        samples = [blob(ctx, f"len{i}", 0 if n < 3 else 1, L) for i in range(n)]
        base = ctx.pick("base", [0, 5]) if n < 3 else 5 if n == 3 else 0
        kw, loader = {}, PyTreeLoader()
        weights = [1] * n
        if limit == "bytes":
            cap = ctx.int("chunk_bytes", 1, 3 * L)
            kw["chunk_bytes"] = cap
            ctx.reach("by-bytes")
        elif limit == "size":
            cap = ctx.int("chunk_size", 1, 4)
            kw["chunk_size"] = cap
            ctx.reach("by-size")
        else:
            cap = ctx.int("chunk_size", 1, 20)
            kw["chunk_size"] = cap
            weights = [ctx.int(f"weight{i}", 1, 10) for i in range(n)]
            ctx.reach("weighted")
        w = BinaryWriter(d, **kw, item_loader=loader)
        if limit == "weight":
            encode, ws = loader.encode_data, list(weights)
            loader.encode_data = lambda *a: (encode(*a)[0], ws.pop(0))
        for i in range(n):
            w.add_item(base + i, samples[i])
        w.done()
        w.merge()
        names = sorted(f for f in os.listdir(d) if f.endswith(".bin"))
        idx = json.load(open(os.path.join(d, "index.json")))
        listed = [c["filename"] for c in idx["chunks"]]
        ctx.check(sorted(listed) == names and len(set(listed)) == len(listed), "the index does not list exactly the files written")
        counts = [int(c["chunk_size"]) for c in idx["chunks"]]
        ctx.check(sum(counts) == n and all(k >= 1 for k in counts), "the sample counts of the index are wrong")
        first = 0
        for c, k in zip(idx["chunks"], counts):
            size = file_size(ctx, os.path.join(d, c["filename"]))
            ctx.check(c["chunk_bytes"] == size, "the size in the index is not the size of the file")
            mine = list(range(first, first + k))
            first += k
            data = sym_sum([length(samples[i]) + 4 for i in mine])
            if k > 1:
                if limit == "bytes":
                    ctx.check(data <= cap, "a chunk of several samples exceeds the byte limit")
                else:
                    ctx.check(sym_sum([weights[i] for i in mine]) <= cap, "a chunk of several samples exceeds the item limit")
            elif limit == "bytes":
                ctx.reach("oversized-alone", data > cap)
            if limit == "weight":
                ctx.check(c["dim"] == sym_sum([weights[i] for i in mine]), "the dimension in the index is wrong")
        c = Cache(d, **kw) if limit != "weight" else Cache(d, chunk_size=1)
        ctx.check(len(c) == n, "the number of samples differs")
        for i in range(n) if n < 4 else [n - 2]:
            ctx.check(same(c[i], samples[i]), "a sample is missing or not at its place")
        ctx.reach("several-chunks", len(counts) > 1)
        ctx.reach("offset", base > 0)


def length(x):
    return x.length() if ropes.ctx_rope(x) else len(x)


def file_size(ctx, p):
    return os.stat(p).st_size


def h_merge(task, ctx):
    """Several workers: the merged index is worker after worker, each with its own chunks in order."""
    nw = task["w"]
    full = {0, nw - 1, 1 % nw, nw // 2}
    with storage(ctx, small=True) as d:
        expected, names = [], []
        plan = []
        for r in range(nw):
            k = ctx.int(f"chunks{r}", 0 if r != 0 else 1, 2) if r in full else 1
            plan.append([int(ctx.int(f"size{r}_{j}", 1, 2)) if r == nw - 1 else 1 for j in range(int(k))])
        for r in range(nw):
            with world.env(extra={"DATA_OPTIMIZER_GLOBAL_RANK": str(r), "DATA_OPTIMIZER_NUM_WORKERS": str(nw)}):
                w = BinaryWriter(d, chunk_size=2)
                w._is_done = False
                i = 0
                for s in plan[r]:
                    for _ in range(s):
                        w.add_item(i, 1000 * r + i)
                        expected.append(1000 * r + i)
                        i += 1
                    names.append(w.write_chunk(on_done=True))
                    w._min_index = w._max_index = None
                    w._per_sample_num_bytes = w._per_sample_num_items = 0
                w.write_chunks_index()
        with world.env(extra={"DATA_OPTIMIZER_GLOBAL_RANK": "0"}):
            BinaryWriter(d, chunk_size=2)._merge_no_wait()
        idx = json.load(open(os.path.join(d, "index.json")))
        ctx.check([c["filename"] for c in idx["chunks"]] == [os.path.basename(f) for f in names],
                  "the merged index is not the chunks of worker 0, then of worker 1, ...")
        c = Cache(d, chunk_size=2)
        ctx.check([int(c[i]) for i in range(len(expected))] == expected, "the samples are not worker by worker in order")
        ctx.check(not any(f.endswith("index.json") and f != "index.json" for f in os.listdir(d)), "an index of a worker is left over")
        ctx.reach("eleven-workers", nw > 10)
