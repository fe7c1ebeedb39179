"""P14: subsampling keeps exactly the requested share; splits are disjoint, of the requested sizes."""
import json
import math
import os

import z3

from symx import core, world
from symx.core import SymInt, is_sym, sym_and, sym_or, sym_not, sym_sum

world.install()

from litdata import StreamingDataset, train_test_split  # noqa: E402

ID = "P14"
REACH = ["cut-inside", "cut-on-boundary", "duplicated", "empty-share", "split", "split-of-subsample", "delivered"]
STUBS = ["sample decoding (item loader extension point): the identity of the sample that would be decoded",
         "json: numbers of an index file may be symbolic", "time.sleep: no-op",
         "the product length*fraction is exact in the symbolic run; the oracle allows one float ulp"]
BUDGET = {"quick": 400, "thorough": 2400}


def BOUNDS(tier):
    q = tier == "quick"
    return {"chunks": f"1..{3 if q else 5}", "chunk sizes": "any integer in [1, 10**6] for the planned regions; "
            "[1, 4] where every sample is really iterated", "fractions": FRACTIONS, "splits": SPLITS, "seeds": "two"}


OUTSIDE = "fractions outside the list (each listed one is exact for every chunk layout)"

FRACTIONS = [0.01, 0.1, 0.25, 1 / 3, 0.3, 0.5, 0.7, 0.9, 0.999, 1.0, 1.25, 1.5, 1.9, 2.0, 2.5, 3.0]
SPLITS = [[0.5, 0.5], [0.8, 0.1, 0.1], [0.3], [0.1, 0.6], [0.25, 0.25, 0.25, 0.25], [1.0], [0.0, 1.0], [0.5, 0.0, 0.3],
          [0.7, 0.2, 0.1]]


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for shuffle in (False, True):
            for i in range(0, len(FRACTIONS), 4):
                out.append({"name": f"sub-c{n}-{shuffle}-{i}", "kind": "sub", "n": n, "shuffle": shuffle,
                            "fr": FRACTIONS[i:i + 4], "S": 10 ** 6, "opts": {"validate_cap": 1}})
            for i in range(len(SPLITS)):
                for sub in (1.0, 0.5, 0.7) if q else (1.0, 0.5, 0.7, 0.3, 1.5):
                    out.append({"name": f"split-c{n}-{shuffle}-{i}-{sub}", "kind": "split", "n": n, "shuffle": shuffle,
                                "splits": SPLITS[i], "sub": sub, "S": 10 ** 6, "opts": {"validate_cap": 1}})
        if n <= 2 or not q:
            for shuffle in (False, True):
                out.append({"name": f"deliver-c{n}-{shuffle}", "kind": "deliver", "n": n, "shuffle": shuffle, "S": 4,
                            "opts": {"validate_cap": 2}})
    return out


def harness(task):
    return globals()["h_" + task["kind"]].__get__(task)


def close(ctx, got, total, f, msg):
    """got is total*f rounded down, up to one unit where the product is within 1e-9 of an integer."""
    if not ctx.symbolic:
        x = total * f
        return ctx.check(got in (math.floor(x - 1e-9 * max(1, total)), math.floor(x + 1e-9 * max(1, total))),
                         f"{msg}: {got} of {total}")
    fr = z3.Q(*f.as_integer_ratio())
    t = z3.ToReal(core._z(total))
    g = core._z(got)
    eps = z3.Q(1, 10 ** 6)
    ctx.check(z3.Or(g == z3.ToInt(t * fr), g == z3.ToInt(t * fr + eps), g == z3.ToInt(t * fr - eps)), msg)


def sizes_of(task, ctx):
    if ctx.symbolic or task["S"] <= 100:
        return [ctx.int(f"size{i}", 1, task["S"]) for i in range(task["n"])]
    return [ctx.int(f"size{i}", 1, task["S"]) for i in range(task["n"])]


def build(task, ctx, d, sizes, **kw):
    """The dataset; the data behind the index is only needed where samples are iterated."""
    src = os.path.join(d, "src")
    os.makedirs(src, exist_ok=True)
    if task["S"] > 100:
        idx = world._index_template()
        c0 = idx["chunks"][0]
        idx["chunks"] = [dict(c0, filename=f"chunk-0-{i}.bin", chunk_size=world.sentinel(s) if ctx.symbolic else int(s))
                         for i, s in enumerate(sizes)]
        with open(os.path.join(src, "index.json"), "w") as f:
            json.dump(idx, f)
    else:
        world.make_dataset(ctx, src, sizes)
    return StreamingDataset(src, item_loader=world.item_loader(ctx), **kw)


def regions(ds):
    return [(int(f.split("-")[2].split(".")[0]), r[0], r[1]) for f, r in zip(ds.subsampled_files, ds.region_of_interest)]


def inside(ctx, regs, sizes, what):
    for c, a, b in regs:
        ctx.check(sym_and(a >= 0, a <= b, b <= sizes[c]), f"{what}: a region is not inside its chunk {c}")


def total_of(regs):
    return sym_sum([b - a for _, a, b in regs]) if regs else 0


def h_sub(task, ctx):
    sizes = sizes_of(task, ctx)
    f = ctx.pick("fraction", task["fr"])
    seed = ctx.pick("seed", [42, 7])
    n = len(sizes)
    with world.world(ctx) as d, world.env():
        ds = build(task, ctx, d, sizes, subsample=f, shuffle=task["shuffle"], seed=seed)
        ctx.check(len(ds.subsampled_files) == len(ds.region_of_interest), "files and regions do not match")
        regs = regions(ds)
        inside(ctx, regs, sizes, "subsample")
        total = sym_sum(sizes)
        got = total_of(regs)
        close(ctx, got, total, f, f"a share of {f} is requested")
        whole = int(f)
        # every sample at least floor(f) times, at most ceil(f) times
        x = ctx.int("chunk", 0, n - 1)
        j = ctx.int("pos", 0, task["S"])
        for c in range(n):
            if not (x == c):
                continue
            ctx.assume(j < sizes[c])
            times = sym_sum([core.ite(sym_and(j >= a, j < b), 1, 0) for k, a, b in regs if k == c] or [0])
            ctx.check(sym_and(times >= whole, times <= math.ceil(f)), f"a sample is kept too often or not often enough for a share of {f}")
            if f >= 2:
                ctx.reach("duplicated")
        if f < 1 and regs:
            c, a, b = regs[-1]
            ctx.reach("cut-inside", b < sizes[c])
            ctx.reach("cut-on-boundary", b == sizes[c])
        ctx.reach("empty-share", got == 0)
        if task["S"] > 100:
            idx_len = 0
            if regs:
                with world.env():
                    idx_len = ds.get_len(1, 1)
                ctx.check(idx_len == got, "the declared length is not the number of samples kept")


def h_split(task, ctx):
    sizes = sizes_of(task, ctx)
    seed = ctx.pick("seed", [42, 7])
    with world.world(ctx) as d, world.env():
        ds = build(task, ctx, d, sizes, subsample=task["sub"], shuffle=task["shuffle"])
        before = regions(ds)
        total = total_of(before)
        parts = train_test_split(ds, task["splits"], seed=seed)
        ctx.check(len(parts) == len(task["splits"]), "one dataset per split")
        ctx.check(regions(ds) == before, "splitting changes the original dataset")
        allr = []
        for p, s in zip(parts, task["splits"]):
            ctx.check(len(p.subsampled_files) == len(p.region_of_interest), "files and regions do not match")
            regs = regions(p)
            inside(ctx, regs, sizes, "split")
            close(ctx, total_of(regs), total, s, f"a split of {s} is requested")
            allr.append(regs)
        for k, regs in enumerate(allr):
            for c, a, b in regs:
                own = [(a0, b0) for c0, a0, b0 in before if c0 == c]
                ctx.check(sym_or(a == b, *[sym_and(a0 <= a, b <= b0) for a0, b0 in own]),
                          f"split {k} holds samples of chunk {c} the dataset does not have")
        if task["sub"] <= 1:
            flat = [(k, c, a, b) for k, regs in enumerate(allr) for c, a, b in regs]
            for u in range(len(flat)):
                for v in range(u):
                    k1, c1, a1, b1 = flat[u]
                    k2, c2, a2, b2 = flat[v]
                    if c1 == c2:
                        ctx.check(sym_or(b1 <= a2, b2 <= a1, a1 == b1, a2 == b2),
                                  f"a sample of chunk {c1} is in split {k2} and in split {k1}")
        else:
            # repeated samples: as multisets, no sample is used more often than the dataset holds it
            x = ctx.int("pos", 0, task["S"])
            for c in range(len(sizes)):
                have = sym_sum([core.ite(sym_and(x >= a, x < b), 1, 0) for c0, a, b in before if c0 == c] or [0])
                used = sym_sum([core.ite(sym_and(x >= a, x < b), 1, 0) for r in allr for c0, a, b in r if c0 == c] or [0])
                ctx.check(used <= have, f"a sample of chunk {c} is used more often than the dataset holds it")
        ctx.reach("split")
        if task["sub"] != 1.0:
            ctx.reach("split-of-subsample")


def h_deliver(task, ctx):
    sizes = [int(s) for s in sizes_of(task, ctx)]
    f = ctx.pick("fraction", [0.3, 0.5, 1.0, 1.5])
    sp = ctx.pick("splits", [[0.5, 0.5], [0.3, 0.4, 0.3]])
    used = ctx.bool("iterate-before-splitting")
    with world.world(ctx) as d, world.env():
        ds = build(task, ctx, d, sizes, subsample=f, shuffle=task["shuffle"])
        whole = [world.value_of(c, j) for c in range(len(sizes)) for j in range(sizes[c])]

        def read(x):
            return [int(v) for v in list(x)] if len(x.subsampled_files) else []

        base = None
        if used or f != 1.0:
            base = read(ds)
            ctx.check(len(base) == sum(int(b - a) for _, a, b in regions(ds)), f"{len(base)} samples delivered")
            for v in set(base):
                ctx.check(v in whole and math.floor(f) <= base.count(v) <= math.ceil(f),
                          f"sample {v} is delivered {base.count(v)} times for a share of {f}")
        if base is None:
            base = whole
        left = list(base)
        for s, p in zip(sp, train_test_split(ds, sp)):
            got = read(p)
            close(ctx, len(got), len(base), s, f"a split of {s} delivers")
            for v in got:
                ctx.check(v in left, f"sample {v} is delivered by two splits or is not in the dataset")
                left.remove(v)
        ctx.reach("delivered")
