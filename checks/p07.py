"""P07: a loader over a combined dataset, restored mid-epoch, delivers exactly the remaining batches."""
from checks.combining import *  # noqa: F403
from checks.combining import CombinedStreamingDataset, MEMBER, copy, core, make_loader, members, scripted, split, take, flat, \
    sym_sum, world
from checks.p05 import run_until
from litdata.streaming.dataset import _replay_sampling

ID = "P07"
REACH = ["resumed", "resumed-after-exhaustion", "several-workers", "per-stream", "weights", "second-epoch",
         "interrupted-again"]
STUBS = ["random.Random.choices (standard library): draw number i returns any candidate (symbolic); generators with equal "
         "seeds repeat the same draws. Replays use the same scripted draws",
         "torch worker processes replaced by an in-process stand-in (symx/mpsim.py); replays use real ones",
         "chunk decoding replaced by sample identities in symbolic runs; replays read real chunk files"]
W = [0.5, 0.25, 2.0]


def BOUNDS(tier):
    return {"members": "2 or 3, each of 1..2 chunks of every size in [1, 2] (thorough [1, 3])",
            "draws": "every sequence of draws", "workers": "0..2", "batch size": "1..2 (thorough 3)",
            "batching": "stratified and per_stream", "interruption": "after every number of batches, in the first or second "
            "epoch; a second interruption in the epoch that follows the restored one"}


def tasks(tier):
    q = tier == "quick"
    out = []
    cfg = [(True, "stratified", 2, 2, False), (True, "stratified", 0, 2, True), (False, "stratified", 1, 2, False),
           (True, "per_stream", 1, 2, False), (False, "per_stream", 0, 2, False), (True, "stratified", 0, 3, False),
           (True, "per_stream", 0, 3, False), (True, "stratified", 0, 2, None), (False, "per_stream", 0, 2, None)]
    if not q:
        cfg = [(a, m, nw, mem, sh) for a in (True, False) for m in ("stratified", "per_stream") for nw in (0, 1, 2)
               for mem in (2, 3) for sh in (False, True)]
    for allm, m, nw, mem, sh in cfg:
        out.append({"name": f"{'all' if allm else 'weights'}-{m}-w{nw}-m{mem}-{sh}", "all": allm, "method": m,
                    "nw": nw, "members": mem, "shuffle": bool(sh), "twice": sh is None or not q, "S": 2 if q else 3, "maxbs": (1 if mem == 3 and m == "stratified" else 2) if q else 3,
                    "vary": [(0, 0), (1, 0)] if mem == 2 and q and (sh is not None or allm) else [(0, 0)] if q else [(i, j) for i in (0, 1) for j in (0, 1)],
                    "chunks": [2, 1] if mem == 2 else [1, 1, 1],
                    "opts": {"max_paths": 8000, "validate_cap": 1 if q else 4}})
    out.sort(key=lambda t: -t["members"])
    return out


def harness(task):
    return h.__get__(task)


def in_step(ctx, d, task, sizes, bs, nw, done):
    """KF2: with several workers the saved state only keeps each member's total over the workers and the number of batches.
    It is enough to restore when the workers delivered in turn and took each member in equal turns; True in that case."""
    ref = {}
    for w in range(nw):
        for i, c in enumerate(members(ctx, d, sizes, task, make=False)):
            c.set_batch_size(bs)
            c.set_num_workers(nw)
            c.set_epoch(1)
            with world.env(1, 0, 1, worker=w, num_workers=nw):
                for v in c:
                    ref[int(v)] = w
    for j, batch in enumerate(done):
        if any(ref[v] != j % nw for v in batch):
            return False
    for i in range(task["members"]):
        mine = [v for v in flat(done) if v // MEMBER == i]
        count = {w: sum(1 for v in mine if ref[v] == w) for w in range(nw)}
        if _replay_sampling(len(mine), bs, nw) != count:
            return False
    return True


def known_findings():
    yield ("KF2 with two or more loader workers a restored combined dataset repeats and skips samples unless the workers "
           "took every member in equal turns of whole batches")


def h(task, ctx):
    nm, nw = task["members"], task["nw"]
    sizes = [[ctx.int(f"s{i}_{j}", 1, task["S"] if (i, j) in task["vary"] else 1) for j in range(c)] for i, c in enumerate(task["chunks"])]
    bs = int(ctx.int("bs", 1, task["maxbs"]))
    k = ctx.int("k", 1, 3 + sum(task["chunks"]))
    if task["twice"]:
        ctx.assume(k <= 2)
    ctx.assume(k <= sym_sum([sym_sum(x) for x in sizes]))
    if ctx.symbolic:
        k = int(k)
    weights = None if task["all"] else W[:nm]
    with world.world(ctx) as d, world.env(1, 0, 1), scripted(ctx):
        def fresh():
            comb = CombinedStreamingDataset(members(ctx, d, sizes, task, make=fresh.n == 0), seed=11, weights=weights,
                                            iterate_over_all=task["all"], batching_method=task["method"])
            fresh.n += 1
            return make_loader(ctx, comb, bs, nw)

        fresh.n = 0
        a = fresh()
        state, rest, done = run_until(a, k)
        nxt = take(a)
        b = fresh()
        b.load_state_dict(state)
        if not rest and task["all"]:
            ctx.check(take(b) == nxt, "restored at the end of an epoch: wrong next epoch")
            return
        ctx.reach("resumed")
        ctx.reach("second-epoch")
        if not rest:
            ctx.check(take(b) in ([], nxt), "restored after the last sample: wrong batches")
            return
        if nw > 1 and not in_step(ctx, d, task, sizes, bs, nw, done):
            return  # KF2 (known_findings.txt)
        got = take(b)
        ctx.check(got == rest, f"restored loader delivered {got} instead of {rest} (after {done})")
        b_next = take(b)
        ctx.check(b_next == nxt, f"epoch after the restored one: {b_next} instead of {nxt}")
        if task["twice"]:
            # interrupted again, in the epoch after the restored one
            k2 = int(ctx.int("k2", 1, 2))
            c = fresh()
            c.load_state_dict(state)
            take(c)
            state2, rest2, _ = run_until(c, k2)
            if rest2:
                e = fresh()
                e.load_state_dict(state2)
                got2 = take(e)
                ctx.check(got2 == rest2, f"restored in the following epoch: delivered {got2} instead of {rest2}")
                ctx.reach("interrupted-again")
        if nm > len({int(v) // MEMBER for v in flat(rest)}):
            ctx.reach("resumed-after-exhaustion")
        if nw > 1:
            ctx.reach("several-workers")
        if task["method"] == "per_stream":
            ctx.reach("per-stream")
        if not task["all"]:
            ctx.reach("weights")
