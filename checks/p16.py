"""P16: an optimize run resumed from its checkpoints stores the output of every input exactly once."""
import json
import os

from symx import core, world
from symx.core import implies, sym_and, sym_not, sym_or

from checks import pipeline as P
from checks.stores import Store

ID = "P16"
REACH = ["orders", "killed", "resumed", "skipped input", "chunk kept", "nothing left", "killed twice", "two uploaders", "finished", "refused when finished"]
STUBS = ["the processes of a run: coroutines that switch where a process waits for a queue, for another process, or hands a file to an uploader",
         "the object store: a list of objects behind the calls of the clients"]
OUTSIDE = ("power loss inside one file system call or one object upload (both are taken as atomic); several nodes; the inputs, "
           "the function and the configuration changing between the runs")


def BOUNDS(tier):
    q = tier == "quick"
    return {"inputs": f"1..{4 if q else 6}, each with or without an output", "chunk size": "1..3 samples", "workers": "1, 2",
            "uploaders": "1, 2; up to one handing-over is taken up later than the following ones", "destination": "local, s3, gs",
            "interruptions": "before any chunk, checkpoint or index file gets to the destination or is deleted there; once or twice",
            "inputs as files": "fetched by two downloaders, up to two of them later than the following ones"}


def tasks(tier):
    q = tier == "quick"
    out = []

    def add(name, **k):
        t = {"n": 3 if q else 5, "workers": 1, "uploaders": 1, "dest": "local", "kills": 1, "files": False, "mode": None, "none": True, "chunks": (1, 2, 3)}
        t.update(k)
        t["name"] = name
        t["opts"] = {"validate_cap": 6}
        out.append(t)

    for c in (1, 2, 3):
        add(f"one-{c}", n=4 if q else 6, chunks=(c,))
        add(f"two-workers-{c}", workers=2, n=4 if q else 6, none=not q, chunks=(c,))
        add(f"two-uploaders-{c}", uploaders=2, none=not q, chunks=(c,))
        add(f"files-{c}", files=True, none=False, n=3, chunks=(c,))
        add(f"twice-{c}", kills=2, n=3 if q else 4, none=not q, chunks=(c,))
        add(f"dicts-{c}", n=3, none=False, dicts=True, chunks=(c,))
        add(f"append-{c}", mode="append", n=2 if q else 4, chunks=(c,), none=not q)
        add(f"overwrite-{c}", mode="overwrite", n=2 if q else 4, chunks=(c,), none=not q)
        for s in ("s3", "gs"):
            add(f"{s}-{c}", dest=s, n=3, none=not q, chunks=(c,))
    return out


def harness(task):
    return lambda ctx: run(task, ctx)


def names(files):
    return json.loads(files["index.json"])["chunks"]


def run(task, ctx):
    n = ctx.pick("n", list(range(1, task["n"] + 1)))
    c = ctx.pick("chunk size", list(task["chunks"]))
    none = [ctx.bool(f"none{i}") if task["none"] else False for i in range(n)]
    flip = [ctx.bool(f"other order{i}") for i in range(n)] if task.get("dicts") else None
    ats = [ctx.int(f"kill{k}", 1, 4 * task["n"] + 6) for k in range(task["kills"])]
    later, most = [0, 0], 1 if task["uploaders"] > 1 or task["n"] > 4 else 2
    remote = task["dest"] != "local"
    with world.world(ctx) as d:
        store = Store([]) if remote else None
        out = f"{task['dest']}://b/out" if remote else os.path.join(d, "out")
        src = os.path.join(d, "src")
        inputs = list(range(n))
        if task["files"]:
            os.makedirs(src)
            inputs = [os.path.join(src, f"{i}.txt") for i in range(n)]
            for i, p in enumerate(inputs):
                with open(p, "w") as f:
                    f.write(str(i))

        def fn(x):
            if task["files"]:
                with open(x) as f:
                    x = int(f.read())
            if task.get("dicts"):
                return {"b": 500 + x, "a": 100 + x} if flip[x] else {"a": 100 + x, "b": 500 + x}
            return None if none[x] else 100 + x

        def files():
            if remote:
                return {k[len("out/"):]: v for (k, v), live in zip(store.objects, store.live) if live}
            return P.tree(out)

        def go(kill, first=False):
            def on_put(q, item):
                # an uploader takes a file at once, or not before its worker waits for it; a downloader likewise
                for p in m.procs:
                    if p.started and not p.done and q in p.args and p.target in (P.dp._upload_fn, P.dp._download_data_target) and item is not None:
                        if task["uploaders"] > 1 or p.target is P.dp._download_data_target:
                            later[0] += 1
                            if later[1] < most and ctx.bool(f"later{later[0]}"):
                                later[1] += 1
                                return
                        m.resume(p)

            with P.machine(d, kill, store) as m:
                if not first:
                    m.on_put = on_put
                try:
                    P.fns.optimize(fn=(lambda x: 90 + x) if first else fn, inputs=[0, 1] if first else inputs, output_dir=out,
                                   chunk_size=c, num_workers=task["workers"], num_uploaders=task["uploaders"],
                                   num_downloaders=2, input_dir=src if task["files"] and not first else None,
                                   reorder_files=False, use_checkpoint=not first,
                                   mode=None if first else (task["mode"] or None))
                    return True
                except P.Killed:
                    return False

        old = []
        if task["mode"]:
            go(P.Kill(), True)
            old = [90, 91] if task["mode"] == "append" else []
        kept, finished, done = {}, False, False
        for k, at in enumerate([*ats, None]):
            try:
                done = go(P.Kill(at))
            except Exception as e:
                # the interrupted run may have finished its dataset already
                if not (k and "index.json" in files() and not task["mode"]):
                    core_fail(ctx, e)
                ctx.reach("refused when finished")
                finished = True
                break
            if done:
                ctx.reach("finished", at is not None)
                break
            ctx.reach("killed" if k == 0 else "killed twice")
            f = files()
            for name, data in f.items():
                if name.startswith(".checkpoints/checkpoint") and task["mode"] != "overwrite":
                    for chunk in json.loads(data)["chunks"]:
                        ctx.check(chunk["filename"] in f, "a checkpoint names a chunk that is not there")
                        kept[chunk["filename"]] = f[chunk["filename"]]
                        ctx.reach("resumed")
        f = files()
        ctx.check("index.json" in f, "there is no index at the end")
        ctx.check(finished or not any(x.startswith(".checkpoints") for x in f), "checkpoints are left at the end of a run")
        want = old + [100 + i for i in range(n) if not none[i]]
        if not want:
            ctx.reach("nothing left")
            ctx.check(not names(f), "a dataset without samples names chunks")
            return
        for ch in names(f):
            ctx.check(ch["filename"] in f, "the index names a chunk that is not there")
        for name, data in kept.items():
            ctx.check(f.get(name) == data, "a chunk of a checkpoint is not kept")
            ctx.reach("chunk kept")
        got = P.read_dataset(f)
        if task.get("dicts"):
            ctx.check(all(x["b"] == x["a"] + 400 for x in got), "the leaves of a sample are mixed up")
            got = [x["a"] for x in got]
            ctx.reach("orders", n > 1 and flip[0] != flip[-1])
        got = [int(x) for x in got]
        ctx.check(sorted(got) == sorted(want), "the finished dataset does not hold the output of every input exactly once")
        ctx.reach("skipped input", len(want) < n)
        ctx.reach("two uploaders", task["uploaders"] == 2)


def core_fail(ctx, e):
    if os.environ.get("PIPE_V"):
        import traceback

        os.write(2, "".join(traceback.format_exception(e)).encode())
    ctx.check(False, "the run can't be resumed")
