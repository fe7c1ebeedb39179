"""P17: appending to a dataset keeps the existing samples first and intact."""
import json
import os

from symx import core, world
from symx.core import implies, sym_and, sym_not, sym_or

from checks import pipeline as P
from checks.stores import Store

ID = "P17"
REACH = ["appended", "appended twice", "nothing new", "overwritten", "refused", "fewer workers", "more workers", "first run", "nodes", "compressed"]
STUBS = ["the processes of a run: coroutines that switch where a process waits for a queue or for another process",
         "the object store: a list of objects behind the calls of the clients", "the nodes of a run: one after the other, the last one last"]
OUTSIDE = "runs on several destinations at once; changing the function's sample structure between the runs (see P13); more than 2 nodes"


def BOUNDS(tier):
    q = tier == "quick"
    return {"runs": "a dataset, then two runs, each appending or overwriting", "inputs of a run": "1 or 3 in quick, 1..3 in thorough, each with or without an output (quick: in the second run only)",
            "workers of a run": f"1..{2 if q else 3}", "chunk size": "1, 2; changed between the runs in one group", "nodes": "1, 2", "destination": "local, s3, gs"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for w0 in (1, 2) if q else (1, 2, 3):
        for w1 in (1, 2) if q else (1, 2, 3):
            for c in (1, 2):
                out.append({"name": f"local-{w0}-{w1}-{c}", "dest": "local", "w": [w0, w1], "chunk": [c, c], "nodes": 1})
            out.append({"name": f"nodes-{w0}-{w1}", "dest": "local", "w": [w0, w1], "chunk": [1, 1], "nodes": 2})
    for dest in ("s3", "gs"):
        out.append({"name": f"{dest}", "dest": dest, "w": [2, 1], "chunk": [1, 1], "nodes": 1})
        out.append({"name": f"{dest}-nodes", "dest": dest, "w": [1, 1], "chunk": [1, 1], "nodes": 2})
    out.append({"name": "other-size", "dest": "local", "w": [1, 1], "chunk": [1, 2], "nodes": 1})
    out.append({"name": "compressed", "dest": "local", "w": [2, 1], "chunk": [1, 1], "nodes": 1, "compression": "zstd"})
    out.append({"name": "empty", "dest": "local", "w": [1, 1], "chunk": [1, 1], "nodes": 1, "empty": True})
    for t in out:
        t["opts"] = {"validate_cap": 6}
        t["tier"] = tier
    return out


def harness(task):
    return lambda ctx: run(task, ctx)


def run(task, ctx):
    nmax, nodes = 1 if task.get("compression") else (2 if task["tier"] == "quick" and (task["nodes"] > 1 or task["dest"] != "local") else 3), task["nodes"]
    remote = task["dest"] != "local"
    with world.world(ctx) as d:
        store = Store([]) if remote else None
        out = f"{task['dest']}://b/out" if remote else os.path.join(d, "out")
        if nodes > 1 and not remote:
            os.makedirs(out)
        if task.get("empty"):
            os.makedirs(out)
            with open(os.path.join(out, "other.txt"), "w") as f:
                f.write("other")

        def files():
            if remote:
                return {k[len("out/"):]: v for (k, v), live in zip(store.objects, store.live) if live}
            return P.tree(out)

        def go(values, workers, chunk, mode):
            # the nodes clear the destination before any of them writes: the first run is a single node's
            nodes = task["nodes"] if mode == "append" else 1
            for node in range(nodes):
                with P.machine(os.path.join(d, f"node{node}") if nodes > 1 else d, P.Kill(), store):
                    os.environ["DATA_OPTIMIZER_NUM_NODES"], os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(nodes), str(node)
                    P.fns.optimize(fn=lambda x: x, inputs=values, output_dir=out, chunk_size=chunk, num_workers=workers, mode=mode,
                                   compression=task.get("compression"), reorder_files=False)

        n0 = ctx.pick("n0", [1, nmax])
        want = [100 + i for i in range(n0)]
        if not task.get("empty"):
            go(want, task["w"][0], task["chunk"][0], None)
        else:
            want = []
        for r in (1, 2):
            mode = ctx.pick(f"mode{r}", ["append", "overwrite"]) if nodes == 1 else "append"
            n = ctx.pick(f"n{r}", [1, nmax] if task["tier"] == "quick" else list(range(1, nmax + 1)))
            vals = [100 * (r + 1) + i if nodes > 1 or r == 2 and task["tier"] == "quick" or not ctx.bool(f"none{r}.{i}") else None for i in range(n)]
            new = [v for v in vals if v is not None]
            before = files()
            old = {c["filename"]: before[c["filename"]] for c in json.loads(before["index.json"])["chunks"]} if "index.json" in before else {}
            workers, chunk = task["w"][r % 2], task["chunk"][r % 2]
            same = not old or mode == "overwrite" or json.loads(before["index.json"])["config"]["chunk_size"] == chunk
            try:
                go(vals, workers, chunk, mode)
            except (core.PathAbort, P.Killed):
                raise
            except Exception as e:
                if same:
                    core_fail(ctx, e)
                ctx.reach("refused")
                ctx.check(mode == "append", "overwriting is refused")
                f = files()
                ctx.check(f["index.json"] == before["index.json"] and all(f.get(k) == v for k, v in old.items()), "a refused append changes the dataset")
                continue
            f = files()
            if mode == "append":
                ctx.check(all(f.get(k) == v for k, v in old.items()), "an existing chunk is changed or removed")
                want = want + new
                ctx.reach("appended")
                ctx.reach("appended twice", r == 2)
                ctx.reach("nothing new", not new)
            else:
                want = new
                ctx.reach("overwritten")
            index = json.loads(f["index.json"])
            names = [c["filename"] for c in index["chunks"]]
            ctx.check(len(set(names)) == len(names), "two chunks have the same name")
            ctx.check(all(x in f for x in names), "the index names a chunk that is not there")
            got = [int(x) for x in P.read_dataset(f)] if names else []
            ctx.check(got == want, "the dataset is not the old samples followed by the new ones")
            ctx.reach("fewer workers", r == 1 and task["w"][1] < task["w"][0])
            ctx.reach("more workers", r == 1 and task["w"][1] > task["w"][0])
            ctx.reach("first run", bool(task.get("empty")))
            ctx.reach("nodes", nodes > 1)
            ctx.reach("compressed", bool(task.get("compression")))


def core_fail(ctx, e):
    if os.environ.get("PIPE_V"):
        import traceback

        os.write(2, "".join(traceback.format_exception(e)).encode())
    ctx.check(False, "a run is refused")
