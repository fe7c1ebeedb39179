"""P06: a combined dataset delivers each member's samples once and in order, or follows its weights."""
from checks.combining import *  # noqa: F403
from checks.combining import CombinedStreamingDataset, MEMBER, copy, ite, make_loader, members, scripted, split, sym_and, \
    sym_sum, take, flat, world

ID = "P06"
REACH = ["exhausted-member", "stopped-by-weights", "several-workers", "per-stream", "second-epoch", "three-members",
         "weights-followed"]
STUBS = ["random.Random.choices (standard library): draw number i returns any candidate (symbolic); generators with equal "
         "seeds repeat the same draws. Replays use the same scripted draws",
         "torch worker processes replaced by an in-process stand-in (symx/mpsim.py); replays use real ones",
         "chunk decoding replaced by sample identities in symbolic runs; replays read real chunk files"]
W = [0.5, 0.25, 2.0]


def BOUNDS(tier):
    return {"members": "2 (one task group: 3) of 1..2 chunks of every size in [1, 2] (thorough [1, 3]; a third member has 1)",
            "draws": "every sequence of draws", "workers": "0..2 loader workers, or iterated directly", "batch size":
            "1..2 (thorough 3)", "batching": "stratified and per_stream", "weights": "none (all members) or (0.5, 0.25, 2.0)",
            "epochs": "2 for one loader, history: length asked on the combined dataset or not"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for allm in (True, False):
        for m in ("stratified", "per_stream"):
            for nw, mem, sh in ([(None, 2, True), (0, 2, False), (2, 2, False), (None, 3, False)] if q else
                                [(a, b, c) for a in (None, 0, 1, 2) for b in (2, 3) for c in (False, True)]):
                if q and m == "per_stream" and nw is None and mem == 2:
                    continue
                out.append({"name": f"{'all' if allm else 'weights'}-{m}-w{nw}-m{mem}-{sh}", "all": allm, "method": m,
                            "nw": nw, "members": mem, "shuffle": sh, "S": 2 if q else 3, "maxbs": 2 if q else 3,
                            "vary": 1 if q and mem > 2 and allm else 2,
                            "chunks": [2, 1] if mem == 2 else [1, 1, 1],
                            "opts": {"max_paths": 8000, "validate_cap": 1 if q else 4}})
    out.sort(key=lambda t: -(t["nw"] == 2) - t["all"])
    return out


def harness(task):
    return h.__get__(task)


def h(task, ctx):
    nm, nw = task["members"], task["nw"]
    sizes = [[ctx.int(f"s{i}_{j}", 1, task["S"] if i < task["vary"] else 1) for j in range(c)] for i, c in enumerate(task["chunks"])]
    bs = int(ctx.int("bs", 1, task["maxbs"]))
    weights = None if task["all"] else W[:nm]
    nworkers = max(1, nw or 0)
    with world.world(ctx) as d, world.env(1, 0, 1), scripted(ctx) as rnd:
        ds = members(ctx, d, sizes, task)
        # the order each member has on its own, per worker
        ref = {}
        for e in (1, 2) if nm == 2 else (1,):
            for w in range(nworkers):
                for i, m in enumerate(ds):
                    c = copy.deepcopy(m)
                    c.set_batch_size(bs)
                    c.set_num_workers(nw or 1)
                    c.set_epoch(e)
                    with world.env(1, 0, 1, worker=w, num_workers=nworkers):
                        ref[e, w, i] = [int(v) % MEMBER for v in c]
        comb = CombinedStreamingDataset(ds, seed=11, weights=weights, iterate_over_all=task["all"],
                                        batching_method=task["method"])
        if nw is None:
            comb.set_batch_size(bs)
            comb.set_num_workers(1)
            runs = []
            for e in (1, 2) if nm == 2 else (1,):
                comb.set_epoch(e)
                runs.append([[int(v)] for v in comb])
        else:
            ld = make_loader(ctx, comb, bs, nw)
            if ctx.pick("ask_len", [False, True] if nw else [True]):
                if task["all"]:
                    len(comb)
            runs = [take(ld) for _ in range(2 if nw == 0 else 1)]
        for e, batches in enumerate(runs, 1):
            if e > 1:
                ctx.reach("second-epoch")
            got = split(flat(batches), nm)
            want = [sorted(v for w in range(nworkers) for v in ref[e, w, i]) for i in range(nm)]
            for i in range(nm):
                ctx.check(len(set(got[i])) == len(got[i]), f"epoch {e}: a sample of member {i} was delivered twice")
                if task["all"]:
                    ctx.check(sorted(got[i]) == want[i], f"epoch {e}: member {i} delivered {got[i]} of {want[i]}")
                for w in range(nworkers):
                    mine = [v for v in got[i] if v in ref[e, w, i]]
                    ctx.check(mine == ref[e, w, i][: len(mine)], f"epoch {e}: member {i} not in its own order on worker {w}")
                ctx.check(all(any(v in ref[e, w, i] for w in range(nworkers)) for v in got[i]), "delivered a foreign sample")
            if not task["all"]:
                # each worker stops exactly when the member drawn next is exhausted
                for w in range(nworkers):
                    mine = [sum(1 for v in got[i] if v in ref[e, w, i]) for i in range(nm)]
                    ctx.check(any(mine[i] == len(ref[e, w, i]) for i in range(nm)),
                              f"epoch {e}: stopped although no member is exhausted on worker {w}")
                ctx.reach("stopped-by-weights")
                if nw in (None, 0):
                    simulate(ctx, task, rnd, ref, e, nm, bs, [int(v) // MEMBER for v in flat(batches)])
            elif any(len(p) < nm for p, _ in rnd.log):
                ctx.reach("exhausted-member")
        # the candidates of a draw keep the proportions of the requested weights (or of the member lengths)
        prop = weights or [sym_sum(s) for s in sizes]
        seen = set()
        for pop, ws in rnd.log:
            key = (tuple(pop), tuple(str(getattr(w, "e", w)) for w in ws or ()))
            if key in seen:
                continue
            seen.add(key)
            ctx.check(ws is not None and len(ws) == len(pop), "drawn without weights")
            if len(pop) > 1:
                ctx.reach("weights-followed")
            for a in range(len(pop) - 1):
                x, y = ws[a] * prop[pop[a + 1]], ws[a + 1] * prop[pop[a]]
                ctx.check(sym_and(x - y < 1e-6, y - x < 1e-6), "draw does not follow the weights")
    if nworkers > 1:
        ctx.reach("several-workers")
    if task["method"] == "per_stream":
        ctx.reach("per-stream")
    if nm == 3:
        ctx.reach("three-members")


def simulate(ctx, task, rnd, ref, e, nm, bs, order):
    """With weights the sequence of members is the sequence of draws, one per sample or one per batch."""
    per = 1 if task["method"] == "stratified" else bs
    left = [len(ref[e, 0, i]) for i in range(nm)]
    want, k = [], 0
    while True:
        if len(rnd.draws) <= k or nm not in rnd.draws[k]:
            ctx.fail("fewer draws than needed: the sequence does not depend on the seed alone")
        i = rnd.draws[k][nm]
        k += 1
        for _ in range(per):
            if left[i] == 0:
                ctx.check(order == want, f"members delivered {order}, drawn {want}")
                return
            left[i] -= 1
            want.append(i)
