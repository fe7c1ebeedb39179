"""P03: declared lengths are the numbers of samples and batches delivered."""
from checks.loading import *  # noqa: F403
from checks.loading import flat, make_ds, make_loader, sym_sum, take, world
from checks.p01 import _DistributedEnv, known_findings, multiplicity  # noqa: F401

ID = "P03"
REACH = ["partial-last-batch", "several-workers", "len-before-loader", "second-epoch"]
STUBS = ["torch DataLoader worker processes replaced by an in-process stand-in following torch's worker protocol "
         "(symx/mpsim.py); replays use real processes",
         "chunk decoding replaced by sample identities in symbolic runs; replays read real chunk files"]


def BOUNDS(tier):
    return {"chunks": "2 (thorough 3) of any size in [1, 3] (thorough 6)", "batch size": "1..2 (1..3 without workers, and in thorough)", "workers": "0..2 "
            "(thorough 0..3)", "world": "1..2 processes, any rank", "drop_last": "unset, True, False, on the dataset or on "
            "the loader", "history": "length asked on the dataset before the loader is built, or not; two epochs"}


def tasks(tier):
    q = tier == "quick"
    out = []
    cfg = [(nw, ws, nodes, sh) for nw in (0, 1, 2, 3) for ws, nodes in ((1, 1), (2, 1), (2, 2)) for sh in (False, True)]
    if q:
        cfg = [(0, 1, 1, False), (1, 1, 1, False), (2, 1, 1, False), (0, 2, 1, False), (2, 2, 1, True), (2, 1, 1, True),
               (1, 2, 2, True)]
    for nw, ws, nodes, shuffle in cfg:
        out.append({"name": f"len-w{nw}-ws{ws}-n{nodes}-{shuffle}", "nw": nw, "ws": ws, "nodes": nodes,
                    "shuffle": shuffle, "n": 2 if q else 3, "S": 3 if q else 6, "maxbs": (2 if nw else 3) if q else 3,
                    "opts": {"max_paths": 8000, "validate_cap": 1 if q else 4}})
    out.sort(key=lambda t: -(t["ws"] * (t["nw"] + 1)))
    return out


def harness(task):
    return h.__get__(task)


def h(task, ctx):
    n, nw, ws, nodes = task["n"], task["nw"], task["ws"], task["nodes"]
    drop = ctx.pick("drop", [None, True, False])
    on_loader = ctx.pick("on_loader", [False, True]) if drop is not None else False
    before = ctx.pick("before", [False, True] if drop is not False else [True])
    bs = int(ctx.int("bs", 1, task["maxbs"]))
    rank = int(ctx.int("rank", 0, ws - 1))
    sizes = [ctx.int(f"size{i}", 1, task["S"]) for i in range(n)]
    with world.world(ctx) as d:
        world.make_dataset(ctx, d, sizes)
        with world.env(ws, rank, nodes):
            ds = make_ds(ctx, d, task, drop_last=None if on_loader else drop)
            if before:
                n0 = len(ds)
                ctx.reach("len-before-loader")
            kw = {"drop_last": drop} if on_loader and drop is not None else {}
            ld = make_loader(ctx, ds, bs, nw, **kw)
            for e in range(2):
                declared = int(len(ld))
                samples = int(len(ds))
                if nw == 0 and e == 1:
                    ctx.reach("second-epoch")
                batches = take(ld)
                if multiplicity(ds.shuffler, _DistributedEnv(ws, rank, nodes), nw or 1, bs, e + 1, n):
                    # KF1 changes the number of samples of this epoch: the length declared within it must then be right
                    ctx.check(len(batches) in (declared, int(len(ld))), f"epoch {e}: wrong number of batches")
                    declared, samples = len(batches), int(len(ds))
                ctx.check(len(batches) == declared,
                          f"epoch {e}: {declared} batches declared, {len(batches)} delivered")
                got = flat(batches)
                ctx.check(len(got) == samples, f"epoch {e}: {samples} samples declared, {len(got)} delivered")
                ctx.check(all(len(b) == bs for b in batches[:-1]), f"epoch {e}: an inner batch is incomplete")
                ctx.check(all(0 < len(b) <= bs for b in batches), f"epoch {e}: batch of a wrong size")
                if batches and len(batches[-1]) < bs:
                    ctx.reach("partial-last-batch")
                if nw > 1:
                    ctx.reach("several-workers")
                if ws == 1 and drop is not True:
                    ctx.check(sym_sum(sizes) == samples, "declared length is not the number of samples")
