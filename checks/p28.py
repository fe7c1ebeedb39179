"""P28: the planner of chunk releases ends, and leaves exactly one remover per shared chunk."""
from symx import core, world
from symx.core import sym_and

world.install()

from checks.p01 import _FakeCache, FullShuffle, NoShuffle, Interval, _DistributedEnv  # noqa: E402
from litdata.utilities.shuffle import _find_chunks_per_workers_on_which_to_skip_deletion  # noqa: E402

ID = "P28"
REACH = ["shared", "shared-across-ranks", "shared-by-three"]
STUBS = ["numpy's random generator is the real one; seeds are enumerated"]


def BOUNDS(tier):
    return {"chunks": "1..3 (thorough 4), each of any size in [1, 6] (3 chunks: [1, 4]) (thorough [1, 12])", "batch size": "1..3",
            "ranks": "1..3", "workers": "1..3", "drop_last": "both"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for ws in (1, 2, 3):
        for nw in (1, 2, 3):
            for n in ((1, 2, 3) if q else (1, 2, 3, 4)):
                if q and n == 3 and ws * nw > 6:
                    continue
                for drop in (False, True):
                    for bs in (1, 2, 3):
                        out.append({"name": f"plan-ws{ws}-w{nw}-c{n}-{drop}-b{bs}", "ws": ws, "nw": nw, "n": n,
                                    "drop": drop, "bs": bs, "S": (6 if n < 3 else 4) if q else 12,
                                    "opts": {"max_paths": 20000, "validate_cap": 1 if q else 3, "alarm": 20}})
    return out


def harness(task):
    return h.__get__(task)


def h(task, ctx):
    n, ws, nw, bs = task["n"], task["ws"], task["nw"], task["bs"]
    sizes = [ctx.int(f"size{i}", 1, task["S"]) for i in range(n)]
    intervals, b = [], 0
    for s in sizes:
        intervals.append(Interval(b, b, b + s, b + s))
        b = b + s
    shuffle = ctx.pick("shuffle", [False, True])
    cls = FullShuffle if shuffle else NoShuffle
    sh = cls(_FakeCache(intervals), 5, task["drop"])
    chunks, ivs = sh.get_chunks_and_intervals_per_workers(_DistributedEnv(ws, 0, 1), nw, bs, 1)
    chunks = [[int(c) for c in cs] for cs in chunks]
    users = {}
    for w, cs in enumerate(chunks):
        for c in cs:
            users.setdefault(c, set()).add(w)
    plan = _find_chunks_per_workers_on_which_to_skip_deletion(nw, bs, chunks, ivs)
    plan = {int(c): [int(w) for w in ws_] for c, ws_ in plan.items()}
    for c, us in users.items():
        if len(us) == 1:
            ctx.check(not plan.get(c), f"chunk {c} is read by one worker but kept by {plan.get(c)}")
            continue
        ctx.reach("shared")
        if len({u // nw for u in us}) > 1:
            ctx.reach("shared-across-ranks")
        if len(us) > 2:
            ctx.reach("shared-by-three")
        keep = set(plan.get(c, []))
        ctx.check(keep <= us, f"chunk {c} kept by workers that do not read it")
        ctx.check(len(us - keep) == 1, f"chunk {c} read by {sorted(us)} is released by {sorted(us - keep)}")
