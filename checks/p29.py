"""P29: every process and worker has its own global rank, and the files of two of them never have the same name."""
import contextlib
import json
import os
import re

from symx import core, world
from symx.core import is_sym, sym_and, sym_not, sym_or

from checks import pipeline as P
from checks.stores import Store

import torch.utils.data._utils.worker as tw  # noqa: E402

from litdata.streaming.cache import Cache  # noqa: E402
from litdata.utilities.env import Environment, _DistributedEnv, _WorkerEnv  # noqa: E402

ID = "P29"
REACH = ["same process", "same worker number", "neighbours", "several chunks", "rank of two digits", "compressed", "no workers", "in a run", "nodes",
         "several files of a worker", "shards"]
STUBS = ["torch's worker information and the environment of a process: any values a job can have",
         "integers in file names: their decimal digits as one symbol, names compared component by component",
         "the processes of a run (optimize, map): coroutines that switch where a process waits for a queue or for another process"]
OUTSIDE = "jobs whose processes are told the same rank; two jobs writing to the same directory; detection through torch.distributed"


def BOUNDS(tier):
    q = tier == "quick"
    return {"processes": "any number in [1, 10**6], two of any ranks", "workers per process": f"1..{4 if q else 8}, two of any numbers",
            "samples of each": "0..3 in chunks of 1 or 2", "compression": "none, zstd",
            "runs": f"1..{2 if q else 3} nodes of 1..{3 if q else 4} workers, 1..{6 if q else 9} inputs, optimize and map, local and s3"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for nw in (0, 1, 2, 3, 4) if q else (0, 1, 2, 3, 4, 6, 8):
        for z in (None, "zstd"):
            if q and z and nw not in (0, 2):
                continue
            out.append({"name": f"write-w{nw}-{z or 'raw'}", "kind": "write", "nw": nw, "zip": z})
        out.append({"name": f"shards-w{nw}", "kind": "shards", "nw": nw})
    for op in ("optimize", "map"):
        for nodes in (1, 2) if q else (1, 2, 3):
            for w in (1, 2, 3) if q else (1, 2, 3, 4):
                for dest in ("local", "s3"):
                    out.append({"name": f"{op}-{nodes}-{w}-{dest}", "kind": "run", "op": op, "nodes": nodes, "w": w, "dest": dest, "max": 6 if q else 9})
    for t in out:
        t["opts"] = {"validate_cap": 2}
    return out


def harness(task):
    return lambda ctx: {"write": h_write, "shards": h_shards, "run": h_run}[task["kind"]](task, ctx)


class Environ(dict):
    """os.environ with some symbolic numbers in it."""

    def __init__(self, real, extra):
        dict.__init__(self, real)
        self.update(extra)


@contextlib.contextmanager
def position(ctx, ws, rank, nodes, nw, worker):
    """A position in a job: process `rank` of `ws`, and one of its loading workers."""
    if not ctx.symbolic:
        with world.env(ws, rank, nodes, worker if nw else None, nw or None):
            yield
        return
    real, info = os.environ, tw._worker_info
    os.environ = Environ(real, {"WORLD_SIZE": ws, "GLOBAL_RANK": rank, "NNODES": nodes})
    tw._worker_info = tw.WorkerInfo(id=worker, num_workers=nw, seed=0, dataset=None) if nw else None
    try:
        yield
    finally:
        os.environ, tw._worker_info = real, info


@contextlib.contextmanager
def names_of_numbers(ctx):
    old = core.TOKENS
    core.TOKENS = [] if ctx.symbolic else None
    try:
        yield
    finally:
        core.TOKENS = old


def same_name(a, b):
    """Condition: two file names are equal, whatever the digits of the numbers in them."""
    if core.TOKENS is None:
        return a == b
    x, y = core.untoken(a), core.untoken(b)
    if not any(is_sym(p) for p in x + y):
        return a == b

    def pieces(xs):
        """Texts without digits, and numbers; None if a symbolic number touches other digits."""
        out = []
        for p in xs:
            new = [p] if is_sym(p) else [int(t) if t.isdigit() and str(int(t)) == t else t for t in re.split(r"(\d+)", p) if t]
            for t in new:
                if out and (is_sym(t) and not text(out[-1]) or is_sym(out[-1]) and not text(t)):
                    return None
                out.append(t)
        return out

    def text(t):
        return isinstance(t, str) and not t.isdigit()

    x1, y1 = pieces(x), pieces(y)
    if x1 is not None and y1 is not None:
        if [p if isinstance(p, str) else 0 for p in x1] != [p if isinstance(p, str) else 0 for p in y1]:
            return False
        return sym_and(*[p == q for p, q in zip(x1, y1)])
    text = ["".join(p if isinstance(p, str) else str(int(p._conc())) for p in z) for z in (x, y)]
    return text[0] == text[1]


def two_positions(ctx, nw):
    ws = ctx.int("processes", 1, 10 ** 6)
    nodes = ctx.pick("nodes", [1, 2])
    pos = []
    for k in (0, 1):
        r = ctx.int(f"rank{k}", 0, 10 ** 6)
        ctx.assume(r < ws)
        pos.append((r, ctx.int(f"worker{k}", 0, max(nw, 1) - 1)))
    (a, i), (b, j) = pos
    ctx.assume(sym_or(a != b, i != j))
    ctx.reach("same process", a == b)
    ctx.reach("same worker number", i == j)
    ctx.reach("neighbours", sym_and(b == a + 1, i == max(nw, 1) - 1, j == 0))
    ctx.reach("no workers", nw == 0)
    return ws, nodes, pos


def h_write(task, ctx):
    nw = task["nw"]
    with world.world(ctx) as d, names_of_numbers(ctx):
        ws, nodes, pos = two_positions(ctx, nw)
        chunk = ctx.pick("chunk_size", [1, 2])
        made, ranks = [], []
        for k, (r, i) in enumerate(pos):
            p = os.path.join(d, f"p{k}")
            os.makedirs(p)
            n = ctx.pick(f"samples{k}", [0, 1, 3])
            with position(ctx, ws, r, nodes, nw, i):
                c = Cache(p, chunk_size=chunk, compression=task["zip"])
                for x in range(n):
                    c[x] = 10 * k + x
                c.done()
                ranks.append(c.rank)
            made.append(sorted(os.listdir(p)))
            bins = [f for f in made[-1] if f.endswith(".bin")]
            ctx.check(len(bins) == -(-n // chunk), "the files of two chunks of a worker have the same name")
            listed = [x["filename"] for f in made[-1] if f.endswith("index.json") for x in json.load(open(os.path.join(p, f)))["chunks"]]
            ctx.check(sorted(listed) == sorted(bins), "the index of a worker does not list its chunks")
            ctx.check(len(made[-1]) == len(bins) + (1 if n else 0) or not n, "a worker writes more than its chunks and its index")
            ctx.reach("several chunks", len(bins) > 1)
        for f in made[0]:
            for g in made[1]:
                ctx.check(sym_not(same_name(f, g)), "the files of two workers have the same name")
        for (r, i), got in zip(pos, ranks):
            ctx.check(got == r * max(nw, 1) + i, "a worker does not have the rank of its position")
            ctx.reach("rank of two digits", got > 9)
        ctx.reach("compressed", bool(task["zip"]))


def h_shards(task, ctx):
    nw = task["nw"]
    ws, nodes, pos = two_positions(ctx, nw)
    got = []
    for r, i in pos:
        with position(ctx, ws, r, nodes, nw, i):
            e = Environment(dist_env=_DistributedEnv.detect(), worker_env=_WorkerEnv.detect())
            ctx.check(sym_and(e.dist_env.world_size == ws, e.dist_env.global_rank == r, e.dist_env.num_nodes == nodes),
                      "a process sees another position than its own")
            ctx.check(sym_and(e.worker_env.world_size == max(nw, 1), e.worker_env.rank == i), "a worker sees another number than its own")
            ctx.check(e.num_shards == ws * max(nw, 1), "the number of shards isn't the number of workers of the job")
            ctx.check(sym_and(e.shard_rank >= 0, e.shard_rank < e.num_shards), "the rank of a shard is out of range")
            got.append(e.shard_rank)
    ctx.check(got[0] != got[1], "two workers have the same rank")
    ctx.reach("shards")


SEEN = []


def h_run(task, ctx):
    nodes, w, remote, op = task["nodes"], task["w"], task["dest"] != "local", task["op"]
    with world.world(ctx) as d:
        store = Store([]) if remote else None
        out = "s3://b/out" if remote else os.path.join(d, "out")
        if not remote and nodes > 1:
            os.makedirs(out)
        n = ctx.pick("inputs", list(range(1, task["max"] + 1)))
        chunk = ctx.pick("chunk_size", [1, 2]) if op == "optimize" else 1
        seen = SEEN
        del seen[:]

        def note():
            env = _DistributedEnv.detect()
            seen.append((node, int(os.environ["DATA_OPTIMIZER_GLOBAL_RANK"]), int(env.world_size), int(env.global_rank), int(env.num_nodes)))

        def sample(x):
            note()
            return x

        def product(x, output_dir):
            note()
            with open(os.path.join(output_dir, f"{x}.txt"), "w") as f:
                f.write(str(x))

        uploaded = {}
        for node in range(nodes):
            with P.machine(os.path.join(d, f"node{node}") if nodes > 1 else d, P.Kill(), store):
                os.environ["DATA_OPTIMIZER_NUM_NODES"], os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(nodes), str(node)
                if op == "optimize":
                    P.fns.optimize(fn=sample, inputs=[100 + i for i in range(n)], output_dir=out, chunk_size=chunk, num_workers=w, reorder_files=False,
                                   mode="append" if node else None)
                else:
                    P.fns.map(fn=product, inputs=[100 + i for i in range(n)], output_dir=out, num_workers=w, reorder_files=False, error_when_not_empty=False)
        total = nodes * w
        ctx.check(all(a[1] == a[3] and a[2] == total and a[4] == nodes for a in seen), "a worker of a run sees another job than its own")
        ctx.check(all(a[0] * w <= a[1] < (a[0] + 1) * w for a in seen), "a worker does not have a rank of its node")
        ctx.reach("in a run")
        ctx.reach("nodes", nodes > 1)
        load = {r: sum(1 for a in seen if a[1] == r) for r in range(total)}
        ctx.check(sum(load.values()) == n, "an input is processed by no worker, or by two")
        ctx.check(max(load.values()) - min(load.values()) <= 1, "two workers have the same rank")
        files = {k[len("out/"):]: v for (k, v), live in zip(store.objects, store.live) if live} if remote else P.tree(out)
        if op == "optimize":
            bins = [f for f in files if f.endswith(".bin")]
            ctx.check(len(bins) == sum(-(-k // chunk) for k in load.values()), "the chunks of two workers have the same name")
            ctx.reach("several files of a worker", any(k > chunk for k in load.values()))
            if "index.json" in files:
                got = [int(x) for x in P.read_dataset(files)]
                ctx.check(sorted(got) == [100 + i for i in range(n)], "a chunk was written over another one")
        else:
            ctx.check(sorted(files) == [f"{100 + i}.txt" for i in range(n)], "a file of map is missing")
