"""P15: work items are partitioned over nodes and workers, unchanged and balanced."""
import json
import os

import numpy as np

from symx import core, world
from symx.core import SymInt, is_sym, sym_and, sym_or, sym_sum, implies

world.install()

from litdata.processing import data_processor as dp  # noqa: E402
from litdata.utilities.packing import _pack_greedily  # noqa: E402

ID = "P15"
REACH = ["uneven", "more-workers-than-items", "several-nodes", "tie", "idle-worker", "unsupported-or-interval", "weighted optimize"]
STUBS = ["numpy's random generator is the real one"]
BUDGET = {"quick": 300, "thorough": 1800}


def BOUNDS(tier):
    q = tier == "quick"
    return {"sequential, symbolic number of inputs": "0..10**6", "sequential, real lists": "0..9 inputs",
            "nodes": "1..3 (4)", "workers per node": "1..4 (6)",
            "weighted": f"0..{5 if q else 6} inputs, each weight any integer in [1, 10**6], nodes*workers <= 4 (6 inputs: 3)",
            "optimize(weights=...)": f"1..{4 if q else 5} inputs, each weight any integer in [1, 100], 2 and 3 workers, one node",
            "item types": "int, str, tuple, dict, None, mixed"}


OUTSIDE = "weights that are not integers; more inputs than the bound for the weighted distribution"


def tasks(tier):
    q = tier == "quick"
    out = []
    for nodes in (1, 2, 3) if q else (1, 2, 3, 4):
        for nw in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
            out.append({"name": f"seq-n{nodes}-w{nw}", "kind": "seq", "nodes": nodes, "nw": nw})
            out.append({"name": f"seqlist-n{nodes}-w{nw}", "kind": "seqlist", "nodes": nodes, "nw": nw})
    for nodes, nw in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (1, 4)):
        for n in range(0, (6 if q else 7)):
            if n == 6 and nodes * nw > 3:
                continue
            out.append({"name": f"weighted-n{nodes}-w{nw}-i{n}", "kind": "weighted", "nodes": nodes, "nw": nw, "n": n,
                        "opts": {"validate_cap": 2}})
    for nodes, nw in ((1, 1), (1, 2), (2, 2), (1, 3), (3, 1)):
        out.append({"name": f"run-n{nodes}-w{nw}", "kind": "run", "nodes": nodes, "nw": nw})
    for nw in (2, 3):
        out.append({"name": f"optimize-w{nw}", "kind": "optimize", "nw": nw, "n": 4 if q else 5, "opts": {"validate_cap": 4}})
    out.append({"name": "refused", "kind": "refused"})
    return out


class Unsupported(core.PathAbort):
    pass


class Slice:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __sx_len__(self):
        return self.b - self.a


class LongList:
    """A list [0, 1, ..., n-1] of symbolic length that can be measured and sliced."""

    def __init__(self, n):
        self.n = n

    @property
    def __class__(self):
        return list

    def __sx_len__(self):
        return self.n

    def __len__(self):
        raise Unsupported()

    def __iter__(self):
        raise Unsupported()

    def __getitem__(self, i):
        if type(i) is slice and i.step in (None, 1):
            a = 0 if i.start is None else i.start
            b = self.n if i.stop is None else i.stop
            return Slice(self._clip(a), self._clip(b))
        raise Unsupported()

    def _clip(self, x):
        if x < 0:
            x = x + self.n
            if x < 0:
                return 0
        return self.n if x > self.n else x


def env(nodes, rank):
    return world.env(extra={"DATA_OPTIMIZER_NUM_NODES": str(nodes), "DATA_OPTIMIZER_NODE_RANK": str(rank)})


def harness(task):
    return globals()["h_" + task["kind"]].__get__(task)


def run_seq(items, nodes, nw):
    out = []
    for r in range(nodes):
        with env(nodes, r):
            res = dp._map_items_to_workers_sequentially(nw, items)
        out.append(list(res))
    return out


def h_seq(task, ctx):
    nodes, nw = task["nodes"], task["nw"]
    n = ctx.int("n", 0, 10 ** 6)
    if not ctx.symbolic:
        return check_lists(ctx, list(range(n)), run_seq(list(range(n)), nodes, nw), nw)
    try:
        per_node = run_seq(LongList(n), nodes, nw)
        ctx.check(all(len(x) == nw for x in per_node), "a node does not get one list per worker")
        parts = [x for node in per_node for x in node]
        if not all(isinstance(p, Slice) for p in parts):
            raise Unsupported()
    except Unsupported:
        ctx.reach("unsupported-or-interval")
        return
    ctx.reach("unsupported-or-interval")
    pos = 0
    for i, p in enumerate(parts):
        ctx.check(sym_or(p.b - p.a == 0, p.a == pos), f"worker {i} does not start where the previous one ended")
        ctx.check(p.b >= p.a, f"worker {i} has an inverted range")
        pos = pos + (p.b - p.a)
    ctx.check(pos == n, "not every input is given to a worker")
    for i, p in enumerate(parts):
        for j in range(i):
            d = (p.b - p.a) - (parts[j].b - parts[j].a)
            ctx.check(sym_and(d <= 1, d >= -1), f"workers {j} and {i} differ by more than one input")
    ctx.reach("uneven", n % (nodes * nw) != 0)
    ctx.reach("more-workers-than-items", sym_and(n > 0, n < nodes * nw))
    if nodes > 1:
        ctx.reach("several-nodes")


KINDS = {
    "int": lambda i: i, "str": lambda i: f"item{i}", "tuple": lambda i: (f"p{i}", i), "dict": lambda i: {"a": i},
    "none": lambda i: None if i % 2 else i, "mixed": lambda i: [i, str(i), (i, i), 1.5 * i][i % 4],
    "list": lambda i: ["x"] * (i % 3) + [i],
}


def same(a, b):
    return type(a) is type(b) and (a == b if not isinstance(a, (list, tuple)) else
                                   len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)))


def check_lists(ctx, items, per_node, nw):
    for r, node in enumerate(per_node):
        ctx.check(len(node) == nw, f"node {r} does not get one list per worker")
    flat = [x for node in per_node for w in node for x in w]
    ctx.check(len(flat) == len(items), f"{len(items)} inputs, {len(flat)} handed out")
    ctx.check(all(same(x, y) for x, y in zip(items, flat)), f"inputs changed or out of order: {flat}")
    sizes = [len(w) for node in per_node for w in node]
    ctx.check(max(sizes) - min(sizes) <= 1, f"unbalanced: {sizes}")


def h_seqlist(task, ctx):
    nodes, nw = task["nodes"], task["nw"]
    n = int(ctx.int("n", 0, 9))
    kind = ctx.pick("kind", sorted(KINDS))
    items = [KINDS[kind](i) for i in range(n)]
    check_lists(ctx, items, run_seq(list(items), nodes, nw), nw)


def h_weighted(task, ctx):
    nodes, nw, n = task["nodes"], task["nw"], task["n"]
    kind = ctx.pick("kind", ["str", "tuple", "mixed"] if n < 4 else ["mixed"])
    items = [KINDS[kind](i) for i in range(n)]
    weights = [ctx.int(f"w{i}", 1, 10 ** 6) for i in range(n)]
    file_size = ctx.pick("file_size", [False, True]) if n == 2 else False
    parts = []
    with world.quiet():
        for r in range(nodes):
            np.random.seed(42)
            with env(nodes, r):
                res = dp._map_items_to_workers_weighted(nw, list(items), list(weights), file_size=file_size)
            ctx.check(len(res) == nw, f"node {r} does not get one list per worker")
            parts += [list(x) for x in res]
    got = [x for p in parts for x in p]
    ctx.check(len(got) == n, f"{n} inputs, {len(got)} handed out")
    left = list(range(n))
    loads = []
    for p in parts:
        idx = []
        for x in p:
            k = [i for i in left if same(items[i], x)]
            ctx.check(bool(k), f"worker receives {x!r} which is not one of the remaining inputs {[items[i] for i in left]}")
            left.remove(k[0])
            idx.append(k[0])
        loads.append(idx)
    check_balance(ctx, loads, weights)
    if nodes > 1:
        ctx.reach("several-nodes")
    if any(not x for x in loads):
        ctx.reach("idle-worker")
    if n > 1:
        ctx.reach("tie", weights[0] == weights[1])


def check_balance(ctx, loads, weights):
    sums = [sym_sum([weights[i] for i in idx]) if idx else 0 for idx in loads]
    for a, ia in enumerate(loads):
        for b, ib in enumerate(loads):
            if a == b:
                continue
            if not ib and len(ia) > 1:
                ctx.fail(f"worker {b} is idle while worker {a} has {len(ia)} inputs")
            # giving away the lightest input of a would make a lighter than b already is
            if ia:
                ctx.check(sym_or(*[sums[a] - weights[i] <= sums[b] for i in ia]),
                          f"worker {a} stays heavier than worker {b} even without its lightest input")


def h_optimize(task, ctx):
    """The weights given to optimize(): what every worker stored is balanced by them."""
    from checks import pipeline as P

    n, nw = int(ctx.int("n", 1, task["n"])), task["nw"]
    weights = [ctx.int(f"w{i}", 1, 100) for i in range(n)]
    with world.world(ctx) as d:
        out = os.path.join(d, "out")
        with P.machine(d, P.Kill()):
            P.fns.optimize(fn=lambda x: 100 + x, inputs=list(range(n)), output_dir=out, chunk_size=1, num_workers=nw, weights=list(weights))
        files = P.tree(out)
        loads = [[] for _ in range(nw)]
        for c in json.loads(files["index.json"])["chunks"]:
            one = dict(files)
            one["index.json"] = json.dumps({"chunks": [c], "config": json.loads(files["index.json"])["config"]}).encode()
            got = [int(x) - 100 for x in P.read_dataset(one)]
            loads[int(c["filename"].split("-")[1])] += got
    ctx.check(sorted(x for y in loads for x in y) == list(range(n)), "an input isn't processed exactly once")
    check_balance(ctx, loads, weights)
    ctx.reach("weighted optimize", n > 1)


class _Worker:
    """Stands for DataWorkerProcess: records the inputs it is given and reports them as processed."""

    log = None

    def __init__(self, worker_index, num_workers, node_rank, recipe, input_dir, output_dir, items, progress_queue, *a):
        self.worker_index, self.items, self.progress = worker_index, items, progress_queue

    def start(self):
        _Worker.log.append((self.worker_index, list(self.items)))
        self.progress.put((self.worker_index, len(self.items)))

    def is_alive(self):
        return False

    def join(self, *a):
        pass

    terminate = join


def h_run(task, ctx):
    """The same through DataProcessor.run, with recording stand-ins for the worker processes."""
    import queue
    import signal

    nodes, nw = task["nodes"], task["nw"]
    n = int(ctx.int("n", 0, 4))
    kind = ctx.pick("kind", ["tuple", "mixed", "str"])
    items = [KINDS[kind](i) for i in range(n)]
    weighted = ctx.pick("weighted", [False, True]) and n > 0
    weights = [ctx.int(f"w{i}", 1, 100) for i in range(n)] if weighted else None
    reorder = ctx.pick("reorder", [False, True])

    class Recipe(dp.DataRecipe):
        def prepare_structure(self, input_dir):
            return list(items)

    per_node = []
    with world.scratch() as d, world.quiet():
        old = dp.DataWorkerProcess, dp.Queue, signal.signal, dp._TQDM_AVAILABLE, os.environ.get("DATA_OPTIMIZER_CACHE_FOLDER")
        dp.DataWorkerProcess, dp.Queue, dp._TQDM_AVAILABLE = _Worker, queue.Queue, False
        signal.signal = lambda *a: None
        try:
            for r in range(nodes):
                _Worker.log = []
                with world.env(extra={"DATA_OPTIMIZER_NUM_NODES": str(nodes), "DATA_OPTIMIZER_NODE_RANK": str(r),
                                      "DATA_OPTIMIZER_CACHE_FOLDER": d + "/chunks",
                                      "DATA_OPTIMIZER_DATA_CACHE_FOLDER": d + "/data"}):
                    p = dp.DataProcessor(None, None, num_workers=nw, fast_dev_run=False, reorder_files=reorder,
                                         weights=None if weights is None else list(weights), start_method="fork")
                    p.run(Recipe())
                per_node.append([x for _, x in sorted(_Worker.log, key=lambda t: t[0])])
        finally:
            dp.DataWorkerProcess, dp.Queue, signal.signal, dp._TQDM_AVAILABLE = old[:4]
    if not weighted:
        return check_lists(ctx, items, per_node, nw)
    left = list(range(n))
    for node in per_node:
        ctx.check(len(node) == nw, "a node does not start one worker per requested worker")
        for x in [y for w in node for y in w]:
            k = [i for i in left if same(items[i], x)]
            ctx.check(bool(k), f"a worker receives {x!r}, not one of the inputs left {[items[i] for i in left]}")
            left.remove(k[0])
    ctx.check(not left, f"inputs {[items[i] for i in left]} are given to no worker")


def h_refused(self, ctx):
    n = int(ctx.int("n", 1, 3))
    m = int(ctx.int("m", 0, 4))
    w = [ctx.int(f"w{i}", -2, 3) for i in range(m)]
    bins = int(ctx.int("bins", 1, 3))
    bad = sym_or(n != m, *[x <= 0 for x in w])
    try:
        _pack_greedily(list(range(n)), w, bins)
    except ValueError:
        ctx.check(bad, "valid weights are refused")
        return
    ctx.check(core.sym_not(bad), "weights that do not match the inputs or are not positive are accepted")
