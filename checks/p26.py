"""P26: the caching sampler gives every index to exactly one worker, in order while filling."""
import numpy as np

from symx import core, world
from symx.core import sym_and, sym_not, sym_or

world.install()

from litdata.streaming.sampler import CacheBatchSampler  # noqa: E402

ID = "P26"
REACH = ["several replicas", "several workers", "uneven", "empty batch", "fewer than replicas", "filled", "filled distributed", "several chunks per worker", "no index"]
STUBS = ["the cache: whether it is filled, and its chunk intervals", "numpy's random generator is the real one; seeds are enumerated"]


def BOUNDS(tier):
    q = tier == "quick"
    return {"indices": f"0..{14 if q else 40}", "replicas": "1..3 (4)", "workers": "0..3 (4)", "batch size": "1..4",
            "filled": f"1..{3 if q else 5} chunks of 1..3 samples, every region of interest, seeds 0..2"}


OUTSIDE = ("drop_last, which the sampler ignores; processes that iterate a filled cache with different states of numpy's "
           "random generator (they have to share the seed); len() of the sampler")


def tasks(tier):
    q = tier == "quick"
    out = []
    for r in (1, 2, 3) if q else (1, 2, 3, 4):
        for w in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
            out.append({"name": f"fill-r{r}-w{w}", "kind": "fill", "r": r, "w": w, "n": 14 if q else 40})
            for c in range(1, 4 if q else 6):
                out.append({"name": f"filled-r{r}-w{w}-c{c}", "kind": "filled", "r": r, "w": w, "c": c})
    return out


def harness(task):
    return globals()["h_" + task["kind"]].__get__(task)


class Cache:
    def __init__(self, filled, intervals=()):
        self.filled, self.intervals = filled, intervals

    def get_chunk_intervals(self):
        return list(self.intervals)


def sampler(n, r, rank, w, bs, drop, shuffle, cache):
    return CacheBatchSampler(n, r, rank, w, bs, drop, shuffle, cache)


def h_fill(task, ctx):
    n, r, w = int(ctx.int("n", 0, task["n"])), task["r"], task["w"]
    bs = ctx.pick("bs", [1, 2, 3, 4])
    shuffle = ctx.pick("shuffle", [False, True])
    drop = False
    got = []
    for rank in range(r):
        batches = list(sampler(n, r, rank, w, bs, drop, shuffle, Cache(False)))
        ctx.check(all(len(b) <= bs for b in batches), f"a batch of more than {bs} indices")
        per = [[] for _ in range(w or 1)]
        for k, b in enumerate(batches):  # the loader hands the batches to the workers in turn
            per[k % (w or 1)] += b
        for p in per:
            ctx.check(p == sorted(p) and all(y == x + 1 for x, y in zip(p, p[1:])), f"a worker is given {p}, not successive indices")
        got += [i for p in per for i in p]
        ctx.reach("empty batch", any(not b for b in batches))
    ctx.check(sorted(got) == list(range(n)), f"the indices given are {sorted(got)}, expected each of {n} once")
    ctx.reach("several replicas", r > 1)
    ctx.reach("several workers", w > 1)
    ctx.reach("uneven", n % (r * (w or 1)) != 0)
    ctx.reach("fewer than replicas", 0 < n < r)
    ctx.reach("no index", n == 0)


def h_filled(task, ctx):
    r, w, c = task["r"], task["w"], task["c"]
    bs = ctx.pick("bs", [1, 2, 3])
    seed = ctx.pick("seed", [0, 1, 2])
    intervals, want, pos = [], {}, 0
    for i in range(c):
        size = int(ctx.int(f"s{i}", 1, 3))
        a = int(ctx.int(f"a{i}", 0, 1)) if i == 0 else 0
        if a >= size:
            a = 0
        intervals.append((pos, pos + a, pos + size, pos + size))
        for j in range(pos + a, pos + size):
            want[j] = i
        pos += size
    got = []
    for rank in range(r):
        np.random.seed(seed)
        batches = list(sampler(pos, r, rank, w, bs, False, True, Cache(True, intervals)))
        ctx.check(all(len(b) <= bs for b in batches), f"a batch of more than {bs} indices")
        per = [[] for _ in range(w or 1)]
        for k, b in enumerate(batches):
            per[k % (w or 1)] += b
        for p in per:
            for x in p:
                ctx.check(want.get(x.index) == x.chunk_index, f"index {x.index} is said to be in chunk {x.chunk_index}")
            if p:
                order = [x.chunk_index for x in p]
                seen = list(dict.fromkeys(order))
                ctx.check(list(p[0].chunk_indexes) == seen, f"the worker is told to fetch {p[0].chunk_indexes}, it reads {seen}")
                ctx.check(order == [k for k in seen for _ in range(order.count(k))], "a worker goes back to a chunk it had left")
                ctx.reach("several chunks per worker", len(seen) > 1)
        got += [x.index for p in per for x in p]
    ctx.check(sorted(got) == sorted(want), f"the indices given are {sorted(got)}, expected {sorted(want)}")
    ctx.reach("filled")
    ctx.reach("filled distributed", r > 1)
