"""P02: with drop_last all ranks get the same number of samples, and less than a batch per rank is lost."""
from checks.loading import *  # noqa: F403
from checks.loading import StreamingDataset, copy, core, ite, sym_and, sym_or, sym_sum, world
from checks.p01 import _FakeCache, plans, FullShuffle, NoShuffle, Interval, _DistributedEnv, Counter, multiplicity, ds_shuffler, known_findings

ID = "P02"
REACH = ["dropped-something", "dropped-nothing", "multi-node", "uneven-workers"]
STUBS = ["torch worker processes replaced by their contract (own copy of the dataset, worker info)",
         "chunk decoding replaced by sample identities in symbolic runs; replays read real chunk files",
         "numpy's random generator is the real one; seeds are enumerated"]


def BOUNDS(tier):
    return {"plan (world, nodes, workers, chunks, shuffle, epoch)": str(plans(tier == "quick")) + ": every chunk size in "
            "[1, 10**6], batch size 1, 2, 5 or 64",
            "deliver": "2..3 chunks of any size in [1, 4] (thorough 7), batch size 1..3, world 1..3, workers 1..2"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for ws, nodes, nw, n, shuffle, epoch in plans(q):
        out.append({"name": f"plan-ws{ws}-n{nodes}-w{nw}-c{n}-{shuffle}-{epoch}", "kind": "plan", "ws": ws,
                    "nodes": nodes, "nw": nw, "n": n, "shuffle": shuffle, "epoch": epoch, "seed": 5,
                    "opts": {"max_paths": 20000, "validate_cap": 2}})
    for ws, nodes, nw in [(1, 1, 1), (1, 1, 2), (2, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1)]:
        for shuffle in (False, True):
            for default in (False, True):
                if default and ws == 1:
                    continue
                out.append({"name": f"deliver-ws{ws}-n{nodes}-w{nw}-{shuffle}-{'default' if default else 'asked'}",
                            "kind": "deliver", "ws": ws, "nodes": nodes, "nw": nw, "n": 2 if q else 3,
                            "shuffle": shuffle, "default": default, "S": 4 if q else 7, "maxbs": 3,
                            "epochs": 2 if nodes > 1 else 1,
                            "opts": {"max_paths": 400 if q else 20000, "validate_cap": 2}})
    out.sort(key=lambda t: -(t["ws"] * t["nw"] * t["n"]))
    return out


def harness(task):
    return {"plan": h_plan, "deliver": h_deliver}[task["kind"]].__get__(task)


def h_plan(task, ctx):
    n, ws, nw, nodes = task["n"], task["ws"], task["nw"], task["nodes"]
    sizes = [ctx.int(f"size{i}", 1, 10**6) for i in range(n)]
    bs = ctx.pick("bs", [1, 2, 5, 64])
    intervals, b = [], 0
    for s in sizes:
        intervals.append(Interval(b, b, b + s, b + s))
        b = b + s
    cls = FullShuffle if task["shuffle"] else NoShuffle
    sh = cls(_FakeCache(intervals), task["seed"], True)
    env = _DistributedEnv(ws, 0, nodes)
    chunks, ivs = sh.get_chunks_and_intervals_per_workers(env, nw, bs, task["epoch"])
    ctx.check(len(chunks) == ws * nw and len(ivs) == ws * nw, "one plan entry per worker")
    lens = [sym_sum([iv[2] - iv[1] for iv in its]) for its in ivs]
    ranks = [sym_sum(lens[r * nw:(r + 1) * nw]) for r in range(ws)]
    ctx.check(sym_and(*[r == ranks[0] for r in ranks]), "ranks get different numbers of samples")
    ctx.check(sym_and(*[x % bs == 0 for x in lens]), "a worker gets an incomplete batch")
    total = sym_sum(sizes)
    per_chunk = {i: [] for i in range(n)}
    for cs, its in zip(chunks, ivs):
        for c, iv in zip(cs, its):
            per_chunk[int(c)].append(iv)
    hits = []
    for i in range(n):
        lo = intervals[i][1]
        x = ctx.int(f"x{i}", 0, 10**6 * n)
        hit = sym_sum([ite(sym_and(iv[1] <= x, x < iv[2]), 1, 0) for iv in per_chunk[i]])
        hits.append(hit)
        ctx.check(core.implies(hit >= 1, sym_and(x >= lo, x < lo + sizes[i])), f"a sample outside chunk {i} is planned")

    def bounds(times):
        dropped = sym_sum([m * s for m, s in zip(times, sizes)]) - sym_sum(ranks)
        return sym_and(dropped >= 0, dropped < ws * bs, *[h <= m for h, m in zip(hits, times)])

    # KF1 (known_findings.txt): a chunk counts as often as it is listed
    known = multiplicity(sh, env, nw, bs, task["epoch"], n)
    if known is None:
        dropped = total - sym_sum(ranks)
        ctx.check(sym_and(dropped >= 0, dropped < ws * bs), "more than a batch per rank is dropped")
        ctx.check(bounds([1] * n), "a sample is planned for several workers")
    else:
        ctx.check(sym_or(bounds([1] * n), bounds(known)), "samples planned or dropped a wrong number of times")
        dropped = total - sym_sum(ranks)
    ctx.reach("dropped-something", dropped > 0)
    ctx.reach("dropped-nothing", dropped == 0)
    if nodes > 1:
        ctx.reach("multi-node")
    if nw > 1:
        ctx.reach("uneven-workers", lens[0] != lens[1])


def h_deliver(task, ctx):
    n, ws, nw, nodes = task["n"], task["ws"], task["nw"], task["nodes"]
    sizes = [ctx.int(f"size{i}", 1, task["S"]) for i in range(n)]
    bs = int(ctx.int("bs", 1, task["maxbs"]))
    with world.world(ctx) as d:
        world.make_dataset(ctx, d, sizes)
        E = range(1, task["epochs"] + 1)
        got = {e: [[] for _ in range(ws)] for e in E}
        lens = {}
        for rank in range(ws):
            with world.env(ws, rank, nodes):
                ds = make_ds(ctx, d, task, drop_last=None if task["default"] else True)
                ds.set_batch_size(bs)
                ds.set_num_workers(nw)
            for w in range(nw):
                my = copy.deepcopy(ds)
                with world.env(ws, rank, nodes, worker=w, num_workers=nw):
                    for e in E:
                        my.set_epoch(e)
                        got[e][rank] += [int(v) for v in my]
        total = sym_sum(sizes)
        for e in E:
            counts = [len(x) for x in got[e]]
            ctx.check(len(set(counts)) == 1, f"epoch {e}: ranks got {counts} samples")
            ctx.check(counts[0] % bs == 0, f"epoch {e}: incomplete batch for a rank ({counts[0]} samples)")
            vs = [v for x in got[e] for v in x]
            ctx.check(sym_and(*[world.valid_sample(v, sizes) for v in vs]), f"epoch {e}: delivered a wrong sample")
            known = multiplicity(ds_shuffler(d, ctx, task, ws, nodes, True), _DistributedEnv(ws, 0, nodes), nw, bs, e, n)
            if known is not None and len(set(vs)) < len(vs):
                dropped = sym_sum([k * s for k, s in zip(known, sizes)]) - sum(counts)
                ctx.check(sym_and(dropped >= 0, dropped < ws * bs), f"epoch {e}: dropped too many samples")
                ctx.check(all(k <= known[v // world.STRIDE] for v, k in Counter(vs).items()),
                          f"epoch {e}: sample delivered too often")
                continue
            dropped = total - sum(counts)
            ctx.check(sym_and(dropped >= 0, dropped < ws * bs), f"epoch {e}: dropped too many samples")
            ctx.check(len(set(vs)) == len(vs), f"epoch {e}: a sample was delivered twice")


from checks.loading import make_ds  # noqa: E402
