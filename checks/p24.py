"""P24: a produced file is removed locally only after its upload succeeded, and a failed upload fails the run."""
import json
import os

from symx import core, world
from symx.core import implies, sym_and, sym_not, sym_or

from checks import pipeline as P
from checks.stores import Store

ID = "P24"
REACH = ["failed upload", "all uploaded", "removed", "checkpoint upload failed", "index upload failed", "late", "map"]
STUBS = ["the processes of a run: coroutines that switch where a process waits for a queue, for another process, or hands a file to an uploader",
         "the object store: a list of objects behind the calls of the clients; any upload may be refused"]
OUTSIDE = "uploads that claim success without storing the object; several nodes"


def BOUNDS(tier):
    q = tier == "quick"
    return {"inputs": f"1..{3 if q else 5}", "chunk size": "1, 2", "workers": "1, 2", "uploaders": "1, 2",
            "failing uploads": "any subset of the objects (chunks, checkpoints, the index, files of map)",
            "removals": "before or after the following uploads", "destination": "local, s3, gs"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for dest in ("local", "s3", "gs"):
        for op in ("optimize", "checkpoint", "map"):
            for w, u in ((1, 1), (1, 2), (2, 1)):
                for c in (1, 2):
                    if op == "map" and c == 2:
                        continue
                    out.append({"name": f"{dest}-{op}-{w}-{u}-{c}", "dest": dest, "op": op, "workers": w, "uploaders": u, "chunk": c, "n": 3 if q else 5,
                                "opts": {"validate_cap": 6}})
    return out


def harness(task):
    return lambda ctx: run(task, ctx)


def run(task, ctx):
    n = ctx.pick("n", list(range(1, task["n"] + 1)))
    remote = task["dest"] != "local"
    fails = {}
    late = [0, 0]
    with world.world(ctx) as d:
        store = Store([]) if remote else None
        out = f"{task['dest']}://b/out" if remote else os.path.join(d, "out")

        def refuse(name):
            # named by what is uploaded, without the unique part of a name
            if name not in fails:
                fails[name] = bool(ctx.bool("fails " + name))
            return fails[name]

        def files():
            if remote:
                return {k[len("out/"):]: v for (k, v), live in zip(store.objects, store.live) if live}
            return P.tree(out)

        lost, removed = [], []
        with P.machine(d, P.Kill(), store) as m:
            def before(path):
                # what is removed from the run's own directories must be at the destination (unless it is no product)
                p = os.path.abspath(path)
                if p.endswith(".bin") or p.endswith(".txt"):
                    removed.append(p)
                    name = os.path.basename(p)
                    with open(p, "rb") as f:
                        if files().get(name) != f.read():
                            lost.append(p)

            m.guard.before = before
            if remote:
                store.fail = lambda key: refuse(key[len("out/"):])
            else:
                m.kill.refuse = lambda dst: refuse(os.path.relpath(dst, out)) if not dst.endswith("index.json") else False

            def on_put(q, item):
                for p in m.procs:
                    if p.started and not p.done and q in p.args and p.target in (P.dp._upload_fn, P.dp._remove_target) and item is not None:
                        late[0] += 1
                        if late[1] < 1 and ctx.bool(f"late{late[0]}"):
                            late[1] += 1
                            return
                        m.resume(p)

            m.on_put = on_put

            def write(x, output_dir):
                with open(os.path.join(output_dir, f"{x}.txt"), "w") as f:
                    f.write(f"product {x}")

            err = None
            try:
                if task["op"] == "map":
                    P.fns.map(write, list(range(n)), out, num_workers=task["workers"], num_uploaders=task["uploaders"])
                else:
                    P.fns.optimize(fn=lambda x: 100 + x, inputs=list(range(n)), output_dir=out, chunk_size=task["chunk"],
                                   num_workers=task["workers"], num_uploaders=task["uploaders"], use_checkpoint=task["op"] == "checkpoint")
            except (P.Killed, core.PathAbort):
                raise
            except Exception as e:
                err = e
        f = files()
        ctx.check(not lost, "a file is removed before it is at the destination")
        failed = [k for k, v in fails.items() if v]
        products = [k for k in failed if not k.startswith(".checkpoints")]
        if products:
            ctx.check(err is not None, "a run whose upload failed does not fail")
            ctx.reach("index upload failed", "index.json" in products)
        if err is not None:
            ctx.check(bool(failed), "a run without a failed upload fails")
        if "index.json" in f:
            for ch in json.loads(f["index.json"])["chunks"]:
                ctx.check(ch["filename"] in f, "the index names a chunk that was not uploaded")
        if err is None:
            ctx.reach("all uploaded")
            ctx.reach("removed", bool(removed))
            if task["op"] == "map":
                ctx.reach("map")
                ctx.check(all(f.get(f"{x}.txt") == f"product {x}".encode() for x in range(n)), "a product of map is not at the destination")
            else:
                ctx.check("index.json" in f, "there is no index at the end")
                ctx.check(sorted(int(x) for x in P.read_dataset(f)) == [100 + i for i in range(n)], "the dataset is not complete")
        ctx.reach("failed upload", bool(products))
        ctx.reach("checkpoint upload failed", any(k.startswith(".checkpoints") for k in failed))
        ctx.reach("late", late[1] > 0)
