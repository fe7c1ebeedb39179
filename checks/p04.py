"""P04: the delivered order is a function of (dataset, configuration, seed, epoch), not of the object's history."""
from checks.loading import *  # noqa: F403
from checks.loading import copy, make_ds, make_loader, sym_sum, take, world

ID = "P04"
REACH = ["history:len", "history:partial", "history:index", "history:full", "history:copy", "shuffled"]
STUBS = ["torch worker processes replaced by their contract (own copy of the dataset, worker info)",
         "chunk decoding replaced by sample identities in symbolic runs; replays read real chunk files",
         "numpy's random generator is the real one; seeds 3 and 11"]
OPS = ["none", "len", "index", "partial", "full", "copy", "other-len"]


def BOUNDS(tier):
    return {"chunks": "2 of any size in [1, 3] (thorough: 3 in [1, 4])", "history": "every operation, alone or followed by an abandoned "
            "iteration (thorough: by any other), out of "
            + ", ".join(OPS), "workers": "1..2", "world": "1..2 processes", "batch size": "1..2", "epoch": "1..2"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for shuffle, ws, nw in ([(True, 1, 1), (True, 2, 2), (False, 1, 2)] if q else
                            [(s, w, n) for s in (False, True) for w in (1, 2) for n in (1, 2)]):
        for op in OPS:
            out.append({"name": f"hist-{op}-{shuffle}-ws{ws}-w{nw}", "shuffle": shuffle, "ws": ws, "nw": nw, "op": op,
                        "n": 2 if q else 3, "S": (2 if ws > 1 else 3) if q else 4,
                        "ops2": ["none", "partial"] if q else OPS,
                        "opts": {"max_paths": 6000, "validate_cap": 1 if q else 4}})
    out.sort(key=lambda t: -t["ws"])
    return out


def harness(task):
    return h.__get__(task)


def apply(ctx, ds, op, total, k, i):
    if op == "len":
        len(ds)
    elif op == "other-len":
        # asking a length for another configuration, then restoring the configuration
        nw, bs = ds.num_workers, ds.batch_size
        ds.get_len(nw + 1, bs + 1)
        ds.set_num_workers(nw)
        ds.set_batch_size(bs)
    elif op == "index":
        ds[0]
    elif op == "partial":
        it = iter(ds)
        for _ in range(k):
            try:
                next(it)
            except StopIteration:
                break
    elif op == "full":
        list(ds)
    elif op == "copy":
        ds = copy.deepcopy(ds)
    if op != "none":
        ctx.reach(f"history:{op}")
    return ds


def h(task, ctx):
    n, ws, nw = task["n"], task["ws"], task["nw"]
    sizes = [ctx.int(f"size{i}", 1, task["S"]) for i in range(n)]
    bs = int(ctx.int("bs", 1, 2))
    rank = int(ctx.int("rank", 0, ws - 1))
    w = int(ctx.int("w", 0, nw - 1))
    epoch = int(ctx.int("epoch", 1, 2))
    op2 = ctx.pick("op2", task["ops2"]) if task["op"] != "none" else "none"
    k = int(ctx.int("k", 1, 2)) if "partial" in (task["op"], op2) else 1
    with world.world(ctx) as d:
        world.make_dataset(ctx, d, sizes)

        def fresh():
            with world.env(ws, rank, 1):
                ds = make_ds(ctx, d, task, drop_last=False)
                ds.set_batch_size(bs)
                ds.set_num_workers(nw)
            return ds

        def run(ds):
            ds.set_epoch(epoch)
            return [int(v) for v in ds]

        with world.env(ws, rank, 1, worker=w, num_workers=nw):
            ref = run(fresh())
            used = fresh()
            for i, op in enumerate([task["op"], op2]):
                used = apply(ctx, used, op, None, k, i)
            got = run(used)
            ctx.check(got == ref, f"after {task['op']}, {op2} the order is {got} instead of {ref}")
            # and again
            ctx.check(run(used) == ref, "iterating the same epoch again gives another order")
        if not task["shuffle"]:
            ctx.check(ref == sorted(ref), "without shuffling the order is not the storage order")
        else:
            ctx.reach("shuffled", ref != sorted(ref))
