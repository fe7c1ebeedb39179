"""P05: a loader restored from a mid-epoch state delivers exactly the batches the interrupted one would still have
delivered, in the same order, and then goes on with the next epoch."""
import copy

from checks.loading import *  # noqa: F403
from checks import loading

ID = "P05"
REACH = ["resumed", "resumed-mid-chunk", "resumed-twice", "end-of-epoch", "restored-again"]
STUBS = [
    "torch DataLoader worker processes: replaced by an in-process stand-in following torch's worker protocol "
    "(symx/mpsim.py); replays use real processes",
    "chunk decoding replaced by sample identities in symbolic runs (public item loader extension point); replays read "
    "real chunk files",
]


def BOUNDS(tier):
    return {"chunks": "2..3, each of any size in [1, S], S = 3 quick (2 with 3 chunks) / 6 thorough", "batch size": "1..2 quick / 1..3 thorough",
            "workers": "0..3", "interruption": "after any number of batches of the epoch",
            "world": "1 or 2 processes with drop_last on one node; 2 (thorough also 4) on two nodes", "epochs": "first or second", "second interruption": "after any "
            "number of batches after the resume (tasks named twice)"}


def tasks(tier):
    q = tier == "quick"
    out = []
    if q:
        cfg = [(0, True, 1, 3, True), (0, True, 2, 2, False), (0, False, 1, 2, True), (1, True, 1, 2, True),
               (1, True, 2, 2, False), (2, True, 1, 2, True), (2, False, 1, 3, False), (2, True, 2, 2, False),
               (2, True, 1, 3, False), (3, True, 1, 2, False), (0, False, 2, 3, False, 2), (0, True, 2, 3, False, 2),
               (1, True, 2, 2, True, 2)]
    else:
        cfg = [(nw, sh, ws, n, tw) for nw in (0, 1, 2, 3) for sh in (False, True) for ws in (1, 2) for n in (2, 3)
               for tw in (False, True)]
        cfg += [(nw, sh, ws, 3, tw, 2) for nw in (0, 1, 2) for sh in (False, True) for ws in (2, 4) for tw in (False, True)]
    for nw, shuffle, ws, n, twice, *nodes in cfg:
        nodes = nodes[0] if nodes else 1
        out.append({"name": f"resume-w{nw}-{shuffle}-ws{ws}-n{nodes}-c{n}-{'twice' if twice else 'once'}", "nodes": nodes,
                    "nw": nw, "shuffle": shuffle, "ws": ws, "n": n, "twice": twice,
                    "S": (3 if n < 3 else 2) if q else 6, "maxbs": 2 if q else 3,
                    "opts": {"max_paths": 6000, "validate_cap": 1 if q else 4, "alarm": 60}})
    out.sort(key=lambda t: -t["ws"] * t["n"])
    return out


def harness(task):
    return h.__get__(task)


def h(task, ctx):
    n, nw, ws = task["n"], task["nw"], task["ws"]
    sizes = [ctx.int(f"size{i}", 1, task["S"]) for i in range(n)]
    bs = ctx.int("bs", 1, task["maxbs"])
    rank = ctx.int("rank", 0, ws - 1)
    epoch = ctx.int("epoch", 1, 1 if task["nodes"] > 1 and task["shuffle"] else 2)  # later ones: KF1
    k = ctx.int("k", 1, n * task["S"])
    ctx.assume(k <= sum_(sizes))
    if ctx.symbolic:
        bs, rank, epoch = int(bs), int(rank), int(epoch)
    with world.world(ctx) as d:
        world.make_dataset(ctx, d, sizes)
        with world.env(ws, rank, task["nodes"]):
            def fresh():
                ds = make_ds(ctx, d, task, drop_last=True if ws > 1 else False)
                return make_loader(ctx, ds, bs, nw)

            a = fresh()
            for _ in range(epoch - 1):
                take(a)
            state, rest, done = run_until(a, k)
            nxt = take(a)
            if task["nodes"] == 1:  # otherwise KF1
                ctx.check(flat_set_ok(nxt), "next epoch delivered a sample twice")
            b = fresh()
            b.load_state_dict(state)
            if not rest:
                # interrupted after the last batch: the restored loader goes on with the next epoch
                ctx.reach("end-of-epoch")
                ctx.check(take(b) == nxt, "restored at the end of an epoch: wrong next epoch")
                return
            ctx.reach("resumed")
            if task["twice"]:
                k2 = ctx.int("k2", 1, n * task["S"])
                ctx.assume(k2 <= len(rest))
                state2, rest2, _ = run_until(b, k2)
                c = fresh()
                c.load_state_dict(state2)
                ctx.check(_ == rest[: int(k2)], "restored loader delivered other batches than the interrupted one")
                ctx.check(rest2 == rest[int(k2):], "restored loader: remainder differs")
                if rest2:
                    ctx.reach("resumed-twice")
                    ctx.check(take(c) == rest2, "loader restored a second time delivered other batches")
                ctx.check(take(c) == nxt, "epoch following a second restored epoch differs")
                # the first state is still the position it was taken at
                ctx.reach("restored-again")
                e = fresh()
                e.load_state_dict(state)
                ctx.check(take(e) == rest, "a state used before no longer restores the position it was taken at")
                return
            got = take(b)
            ctx.check(got == rest, f"restored loader delivered {got} instead of {rest}")
            ctx.check(take(b) == nxt, "epoch following the restored epoch differs")
            if rest and done and bs * len(done) % max(1, int(sizes[0])):
                ctx.reach("resumed-mid-chunk")


def sum_(xs):
    return sym_sum(xs)  # noqa: F405


def flat_set_ok(batches):
    f = flat(batches)  # noqa: F405
    return len(set(f)) == len(f)


def run_until(loader, k):
    """Consumes k batches, takes the state, and goes on to the end: (state, remaining batches, first batches)."""
    it = iter(loader)
    done = []
    while len(done) < k:
        try:
            done.append([conc(v) for v in next(it)])  # noqa: F405
        except StopIteration:
            raise core.Infeasible()  # fewer than k batches  # noqa: F405
    state = loader.state_dict()
    rest = [[conc(v) for v in b] for b in it]  # noqa: F405
    return state, rest, done
