"""P10: random access by index returns the sample at this position."""
import json
import os

from symx import core, world
from symx.core import SymInt, is_sym, sym_and, sym_or, sym_not, sym_sum

world.install()

from litdata import StreamingDataset  # noqa: E402

ID = "P10"
REACH = ["roi", "empty-region", "out-of-range", "negative", "last", "slice", "after-iteration", "repeated-file"]
STUBS = ["sample decoding (item loader extension point): the identity of the sample that would be decoded; the byte "
         "layout behind it is P08", "json: numbers of an index file may be symbolic", "time.sleep: no-op"]
BUDGET = {"quick": 400, "thorough": 2400}


def BOUNDS(tier):
    q = tier == "quick"
    return {"chunks": f"1..{6 if q else 10} for single accesses, 1..{2 if q else 3} with iteration or slices", "chunk sizes": "any integer in [1, 10**6] for single accesses; [1, 4] with "
            "iteration or slices", "regions": "any [a, b) within each chunk, also empty", "index": "any integer in "
            "[-10**7, 10**7]", "slices": "start, stop in -7, -3, -1, 0, 1, 2, 4, 7 (thorough: -7..7) or absent, step in [-3, 3] without 0 or absent",
            "history": "two accesses; access after a complete or abandoned iteration"}


OUTSIDE = "several processes (the length is then that of one process); indexes that are not Python integers"


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4, 5, 6) if q else range(1, 11):
        for roi in (False, True):
            out.append({"name": f"one-c{n}-{roi}", "kind": "one", "n": n, "roi": roi, "S": 10 ** 6,
                        "opts": {"validate_cap": 0}})
            out.append({"name": f"two-c{n}-{roi}", "kind": "two", "n": n, "roi": roi, "S": 10 ** 6,
                        "opts": {"validate_cap": 0}})
            if n <= (3 if q else 4) and not (roi and n > (1 if q else 2)):
                out.append({"name": f"small-c{n}-{roi}", "kind": "one", "n": n, "roi": roi, "S": 3,
                            "opts": {"validate_cap": 5}})
            if n <= (2 if q else 3):
                for hist in ("all", "some"):
                    out.append({"name": f"iter-c{n}-{roi}-{hist}", "kind": "iter", "n": n, "roi": roi,
                                "S": (2 if q else 3) if roi and n > 1 else 3, "hist": hist, "opts": {"validate_cap": 3}})
    for n in (1, 2) if q else (1, 2, 3):
        for roi in (False, True):
            for step in ("none", "pos", "neg"):
                out.append({"name": f"slice-c{n}-{roi}-{step}", "kind": "slice", "n": n, "roi": roi,
                            "S": (1 if q and n > 1 else 2) if roi else 3,
                            "step": step, "wide": not q, "opts": {"validate_cap": 3}})
    out.append({"name": "repeated", "kind": "repeated", "n": 2, "roi": False, "S": 10 ** 6, "opts": {"validate_cap": 0}})
    return out


def harness(task):
    return globals()["h_" + task["kind"]].__get__(task)


def build(task, ctx, d):
    """The dataset and its regions: list of (chunk, start, end) in storage order."""
    n = task["n"]
    sizes = [ctx.int(f"size{i}", 1, task["S"]) for i in range(n)]
    if task["S"] <= 100:
        sizes = [int(s) for s in sizes]
    src = os.path.join(d, "src")
    world.make_dataset(ctx, src, sizes)
    ds = StreamingDataset(src, item_loader=world.item_loader(ctx))
    regs = [(i, 0, s) for i, s in enumerate(sizes)]
    if task["roi"]:
        regs = []
        for i, s in enumerate(sizes):
            a = ctx.int(f"start{i}", 0, task["S"])
            b = ctx.int(f"end{i}", 0, task["S"])
            ctx.assume(sym_and(a <= b, b <= s))
            if task["S"] <= 100:
                a, b = int(a), int(b)
            ctx.reach("empty-region", a == b)
            regs.append((i, a, b))
        ds.region_of_interest = [(a, b) for _, a, b in regs]
        ctx.reach("roi")
    return ds, sizes, regs


def expected_is(regs, i, v):
    """Condition: v is the i-th sample of the regions."""
    conds, before = [], 0
    for c, a, b in regs:
        conds.append(sym_and(i >= before, i < before + (b - a), v == world.value_of(c, a) + (i - before)))
        before = before + (b - a)
    return sym_or(*conds)


def access(ctx, ds, regs, i):
    total = sym_sum([b - a for _, a, b in regs])
    try:
        with world.quiet():
            v = ds[i]
    except Exception as e:
        if isinstance(e, AssertionError):
            raise
        ctx.check(sym_or(i < 0, i >= total), f"a valid index raises {type(e).__name__}")
        ctx.reach("out-of-range", i >= total)
        ctx.reach("negative", i < 0)
        return
    ctx.check(sym_and(i >= 0, i < total), "an index out of range returns a sample")
    ctx.check(expected_is(regs, i, v), "dataset[i] is not the i-th sample")
    ctx.reach("last", i == total - 1)


def index(ctx, name, task):
    lim = 10 ** 7 if task["S"] > 100 else 14
    i = ctx.int(name, -lim if task["S"] > 100 else -2, lim)
    return i if task["S"] > 100 else int(i)


def h_one(task, ctx):
    with world.world(ctx) as d, world.env():
        ds, sizes, regs = build(task, ctx, d)
        access(ctx, ds, regs, index(ctx, "i", task))


def h_two(task, ctx):
    with world.world(ctx) as d, world.env():
        ds, sizes, regs = build(task, ctx, d)
        access(ctx, ds, regs, index(ctx, "i", task))
        access(ctx, ds, regs, index(ctx, "j", task))


def h_iter(task, ctx):
    with world.world(ctx) as d, world.env():
        ds, sizes, regs = build(task, ctx, d)
        total = int(sum(b - a for _, a, b in regs))
        ctx.assume(total > 0)
        ds.shuffle = ctx.pick("shuffle", [False, True])
        it = iter(ds)
        if task["hist"] == "all":
            got = list(it)
            ctx.check(len(got) == total, "iteration does not deliver every sample")
        else:
            k = ctx.pick("seen", list(range(total)))
            for _ in range(k):
                next(it)
        access(ctx, ds, regs, ctx.pick("i", list(range(total + 1))))
        access(ctx, ds, regs, ctx.pick("j", [0, total - 1]))
        ctx.reach("after-iteration")


def h_slice(task, ctx):
    with world.world(ctx) as d, world.env():
        ds, sizes, regs = build(task, ctx, d)
        flat = [world.value_of(c, j) for c, a, b in regs for j in range(a, b)]
        ctx.assume(len(flat) > 0)
        lim = range(-7, 8) if task.get("wide") else (-7, -3, -1, 0, 1, 2, 4, 7)
        start = ctx.pick("start", [None, *lim])
        stop = ctx.pick("stop", [None, *lim])
        step = ctx.pick("step", {"none": [None], "pos": [1, 2, 3], "neg": [-1, -2, -3]}[task["step"]])
        got = ds[start:stop:step]
        want = flat[start:stop:step]
        ctx.check(list(got) == want, "a slice returns other samples")
        ctx.reach("slice")


def h_repeated(task, ctx):
    """The same chunk file listed twice (a share above 1)."""
    with world.world(ctx) as d, world.env():
        ds, sizes, regs = build(task, ctx, d)
        names = list(ds.subsampled_files)
        order = ctx.pick("order", [[0, 1, 0], [0, 0, 1], [1, 0, 1, 0]])
        ds.subsampled_files = [names[k] for k in order]
        ds.region_of_interest = [(0, sizes[k]) for k in order]
        regs = [(k, 0, sizes[k]) for k in order]
        access(ctx, ds, regs, index(ctx, "i", task))
        ctx.reach("repeated-file")
