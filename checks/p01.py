"""P01: an epoch without drop_last delivers every sample exactly once over all ranks and workers.

Level A ("plan"): chunk sizes are arbitrary integers (up to 10**6), the plan computed by the real shuffler for every
rank and worker must partition every chunk.
Level B ("deliver"): the datasets are really iterated, worker by worker, with symbolic chunk sizes.
"""
import copy
from collections import Counter

from symx import core, world
from symx.core import sym_and, sym_or, ite, sym_sum

world.install()

from litdata.streaming import StreamingDataset  # noqa: E402
from litdata.streaming.shuffle import FullShuffle, NoShuffle  # noqa: E402
from litdata.streaming.item_loader import Interval  # noqa: E402
from litdata.utilities.env import _DistributedEnv  # noqa: E402

from checks.known import multiplicity  # noqa: E402

ID = "P01"
REACH = ["uneven", "multi-node", "shuffled", "worker-shares-chunk"]
STUBS = [
    "torch's DataLoader worker processes: replaced by the documented contract (every worker iterates its own copy of "
    "the dataset, worker info = (id, num_workers))",
    "chunk bytes: in symbolic runs a public item loader subclass returns the identity (chunk, offset) of the sample "
    "that would be decoded; concrete replays read real chunk files",
    "numpy's random generator is the real one; seeds are enumerated",
]


def BOUNDS(tier):
    return {
        "plan (world, nodes, workers, chunks, shuffle, epoch)": str(plans(tier == "quick")) + ": every chunk size in "
                "[1, 10**6], batch size 1, 2 or 7",
        "deliver (world, nodes, workers)": str(DELIVER) + ": 2..3 chunks of every size in [1, 3] (thorough: [1, 6]), batch "
                "size 1..2 (thorough 4), epochs 1..3",
        "paths": "complete within these bounds unless tasks_by_status shows 'budget'",
    }


class _FakeCache:
    def __init__(self, intervals):
        self.intervals = intervals

    def get_chunk_intervals(self):
        return self.intervals


PLAN_QUICK = [  # ws, nodes, nw, chunks, shuffle, epoch
    (1, 1, 3, 3, False, 1), (2, 1, 2, 3, False, 1), (3, 1, 2, 2, False, 1), (4, 1, 3, 2, False, 1), (3, 1, 1, 3, False, 1),
    (2, 1, 3, 2, True, 2), (2, 1, 2, 3, True, 1), (3, 1, 1, 3, True, 2), (1, 1, 2, 3, True, 2), (4, 1, 1, 2, True, 2),
    (2, 2, 1, 3, True, 1), (2, 2, 1, 3, True, 2), (2, 2, 1, 3, True, 3), (2, 2, 2, 2, True, 2), (4, 2, 1, 2, True, 2),
    (4, 2, 1, 2, True, 3), (4, 2, 2, 2, True, 1),
]
DELIVER = [(1, 1, 1), (1, 1, 2), (1, 1, 3), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (4, 2, 1), (3, 1, 1)]


def plans(q):
    if q:
        return PLAN_QUICK
    return [(ws, nodes, nw, n, shuffle, epoch) for ws, nodes in [(1, 1), (2, 1), (2, 2), (3, 1), (4, 2), (4, 1)]
            for nw in (1, 2, 3) for n in (1, 2, 3, 4) for shuffle, epoch in [(False, 1), (True, 1), (True, 2), (True, 3)]]


def tasks(tier):
    out = []
    q = tier == "quick"
    # level A
    for ws, nodes, nw, n, shuffle, epoch in plans(q):
        out.append({"name": f"plan-ws{ws}-n{nodes}-w{nw}-c{n}-{shuffle}-{epoch}", "kind": "plan", "ws": ws,
                    "nodes": nodes, "nw": nw, "n": n, "shuffle": shuffle, "epoch": epoch, "seed": epoch - 1,
                    "opts": {"max_paths": 20000, "validate_cap": 2 if q else 8}})
    # level B
    for ws, nodes, nw in DELIVER:
        for shuffle in (True,) if q and (ws, nodes, nw) not in ((1, 1, 1), (2, 1, 2)) else (False, True):
            n = 2 if q and ws * nw > 3 else 3
            out.append({"name": f"deliver-ws{ws}-n{nodes}-w{nw}-c{n}-{shuffle}", "kind": "deliver", "ws": ws,
                        "nodes": nodes, "nw": nw, "n": n, "shuffle": shuffle, "S": 3 if q else 6, "seed": 3,
                        "epochs": 2 if not shuffle else 3 if nodes > 1 else 2, "maxbs": 2 if q else 4,
                        "opts": {"max_paths": 20000, "validate_cap": 1 if q else 4, "alarm": 60}})
    out.sort(key=lambda t: -(t["ws"] * t["nw"] * t["n"]))
    return out


def harness(task):
    return {"plan": h_plan, "deliver": h_deliver}[task["kind"]].__get__(task)


def h_plan(task, ctx):
    n, ws, nw, nodes = task["n"], task["ws"], task["nw"], task["nodes"]
    sizes = [ctx.int(f"size{i}", 1, 10**6) for i in range(n)]
    bs = ctx.pick("bs", [1, 2, 7])
    intervals, b = [], 0
    for s in sizes:
        intervals.append(Interval(b, b, b + s, b + s))
        b = b + s
    cls = FullShuffle if task["shuffle"] else NoShuffle
    plans = []
    for rank in ({0, ws - 1}):
        sh = cls(_FakeCache(intervals), task["seed"], False)
        plans.append(sh.get_chunks_and_intervals_per_workers(_DistributedEnv(ws, rank, nodes), nw, bs, task["epoch"]))
    chunks, ivs = plans[0]
    ctx.check(len(chunks) == ws * nw and len(ivs) == ws * nw, "one plan entry per worker")
    # the other process computes the same plan
    if len(plans) > 1:
        c2, i2 = plans[1]
        ctx.check([[int(x) for x in a] for a in chunks] == [[int(x) for x in a] for a in c2],
                  "ranks disagree on the chunk plan")
        ctx.check(sym_and(*[x == y for a, bb in zip(ivs, i2) for u, v in zip(a, bb) for x, y in zip(u, v)]),
                  "ranks disagree on the interval plan")
    # every chunk's samples are partitioned
    per_chunk = {i: [] for i in range(n)}
    shared = False
    for cs, its in zip(chunks, ivs):
        ctx.check(len(cs) == len(its), "one interval per planned chunk")
        for c, iv in zip(cs, its):
            per_chunk[int(c)].append(iv)
    known = multiplicity(sh, _DistributedEnv(ws, 0, nodes), nw, bs, task["epoch"], n)
    strict, weak = [], []
    for i in range(n):
        shared = shared or len(per_chunk[i]) > 1
        lo = intervals[i][1]
        x = ctx.int(f"x{i}", 0, 10**6 * n)
        hit = sym_sum([ite(sym_and(iv[1] <= x, x < iv[2]), 1, 0) for iv in per_chunk[i]])
        inside = sym_and(x >= lo, x < lo + sizes[i])
        if known is None:
            ctx.check(core.implies(inside, hit == 1), f"a sample of chunk {i} is planned for no worker or for several")
        else:
            strict.append(core.implies(inside, hit == 1))
            weak.append(core.implies(inside, hit == known[i]))
        ctx.check(core.implies(core.sym_not(inside), hit == 0), f"a sample outside chunk {i} is planned")
        ctx.check(sym_and(*[iv[0] == intervals[i][0] for iv in per_chunk[i]]), "interval start of the chunk changed")
    if known is not None:
        ctx.check(sym_or(sym_and(*strict), sym_and(*weak)), "samples planned a wrong number of times")
    if nodes > 1:
        ctx.reach("multi-node")
    if shared:
        ctx.reach("worker-shares-chunk")
    if n > 1:
        ctx.reach("uneven", sizes[0] != sizes[1])


def ds_shuffler(d, ctx, task, ws, nodes, drop=False):
    ds = StreamingDataset(d, item_loader=world.item_loader(ctx), shuffle=task["shuffle"], drop_last=drop,
                          seed=task.get("seed", 3))
    ds.distributed_env = _DistributedEnv(ws, 0, nodes)
    len(ds)
    return ds.shuffler


def known_findings():
    from checks.known import listed
    env = _DistributedEnv(2, 0, 2)
    iv = [Interval(0, 0, 3, 3), Interval(3, 3, 6, 6), Interval(6, 6, 9, 9)]
    sh = FullShuffle(_FakeCache(iv), 1, False)
    if sum(b - a for its in sh.get_chunks_and_intervals_per_workers(env, 1, 1, 2)[1] for _, a, b, _ in its) != 9:
        yield "KF1 with several nodes, a chunk split between workers is delivered once per such worker from epoch 2 on"


def h_deliver(task, ctx):
    n, ws, nw, nodes = task["n"], task["ws"], task["nw"], task["nodes"]
    sizes = [ctx.int(f"size{i}", 1, task["S"]) for i in range(n)]
    bs = ctx.int("bs", 1, task["maxbs"])
    if ctx.symbolic:
        bs = int(bs)
    with world.world(ctx) as d:
        world.make_dataset(ctx, d, sizes)
        got = {e: [] for e in range(1, task["epochs"] + 1)}
        for rank in range(ws):
            with world.env(ws, rank, nodes):
                ds = StreamingDataset(d, item_loader=world.item_loader(ctx), shuffle=task["shuffle"], drop_last=False,
                                      seed=task["seed"])
                ds.set_drop_last(False)
                ds.set_batch_size(bs)
                ds.set_num_workers(nw)
            for w in range(nw):
                my = copy.deepcopy(ds)
                with world.env(ws, rank, nodes, worker=w, num_workers=nw):
                    for e in range(1, task["epochs"] + 1):
                        my.set_epoch(e)
                        for v in my:
                            got[e].append(v)
        total = sym_sum(sizes)
        for e, vs in got.items():
            known = multiplicity(ds_shuffler(d, ctx, task, ws, nodes), _DistributedEnv(ws, 0, nodes), nw, bs, e, n)
            if known is not None and len({int(v) for v in vs}) != len(vs):
                count = Counter(int(v) for v in vs)
                ctx.check(sym_sum([k * s for k, s in zip(known, sizes)]) == len(vs), f"epoch {e}: number of samples")
                ctx.check(sym_and(*[world.valid_sample(v, sizes) for v in vs]), f"epoch {e}: delivered a wrong sample")
                ctx.check(all(k == known[v // world.STRIDE] for v, k in count.items()),
                          f"epoch {e}: sample delivered a wrong number of times")
                continue
            ctx.check(len(vs) == total, f"epoch {e}: number of delivered samples differs from the dataset")
            ctx.check(sym_and(*[world.valid_sample(v, sizes) for v in vs]), f"epoch {e}: delivered a wrong sample")
            ctx.check(world.all_distinct(ctx, vs), f"epoch {e}: a sample was delivered twice")
    if task["shuffle"]:
        ctx.reach("shuffled")
