"""P19: an existing dataset is never overwritten unless asked to."""
import json
import os

from symx import core, world
from symx.core import implies, sym_and, sym_not, sym_or

from checks import pipeline as P
from checks.stores import Store

ID = "P19"
REACH = ["refused", "fresh", "appended", "overwritten", "leftovers", "resumed", "other files", "invalid mode", "map refused", "map allowed", "sibling", "slash"]
STUBS = ["the processes of a run: coroutines that switch where a process waits for a queue or for another process",
         "the object store: a list of objects behind the calls of the clients"]
OUTSIDE = "other runs using the destination at the same time; lightning.ai's own mounts"

FILES = {"index": "index.json", "chunk": "chunk-0-0.bin", "chunk2": "chunk-1-3.bin", "checkpoint": ".checkpoints/config.json", "other": "notes.txt", "weights": "weights.bin",
         "sub": "sub/chunk-0-0.bin", "subindex": "sub/index.json"}


def BOUNDS(tier):
    return {"destination": "local, s3, gs, with or without a final slash; holding any subset of " + ", ".join(FILES.values()),
            "beside it": "a directory and a file whose names start the same", "mode": "none, append, overwrite, an invalid one", "checkpoints": "on, off",
            "operations": "optimize, map (refusing a non-empty destination or not)"}


def tasks(tier):
    out = []
    for dest in ("local", "s3", "gs"):
        for slash in ("", "/"):
            for op in ("optimize", "map"):
                out.append({"name": f"{dest}-{op}-{'slash' if slash else 'plain'}", "dest": dest, "slash": slash, "op": op, "opts": {"validate_cap": 8}})
    return out


def harness(task):
    return lambda ctx: run(task, ctx)


_sample = []


def dataset():
    """The files of a real dataset of two chunks."""
    if not _sample:
        with world.scratch() as d:
            with P.machine(d, P.Kill()):
                P.fns.optimize(fn=lambda x: x, inputs=[1, 2], output_dir=os.path.join(d, "out"), chunk_size=1, num_workers=1)
            f = P.tree(os.path.join(d, "out"))
            idx = json.loads(f["index.json"])
            idx["chunks"][1]["filename"] = "chunk-1-3.bin"
            _sample.append({"index": json.dumps(idx).encode(), "chunk": f["chunk-0-0.bin"], "chunk2": f["chunk-0-1.bin"]})
    return _sample[0]


def run(task, ctx):
    remote, op = task["dest"] != "local", task["op"]
    ds = dataset()
    have = {}
    if ctx.bool("a dataset"):
        have.update({k: ds[k] for k in ("index", "chunk", "chunk2")})
    else:
        for k in ("chunk", "chunk2"):
            if ctx.bool(k):
                have[k] = ds[k]
    for k in ("other", "weights", "checkpoint") + (("sub", "subindex") if op == "optimize" else ()):
        if k == "checkpoint" and op == "map":
            continue
        if k == "subindex" and "sub" not in have:
            continue
        if ctx.bool(k):
            have[k] = b"{" + k.encode()
    mode = ctx.pick("mode", [None, "append", "overwrite", "other"]) if op == "optimize" else None
    if mode == "append" and "chunk" in have and "index" not in have:
        pass
    ckpt = bool(ctx.bool("checkpoints")) if op == "optimize" and mode != "other" else False
    strict = bool(ctx.bool("error when not empty")) if op == "map" else False
    if ckpt and "checkpoint" in have:
        have.pop("checkpoint")
        have["checkpoint"] = json.dumps({"num_workers": 1, "workers_user_items": [[5, 6]]}).encode()
    with world.world(ctx) as d:
        start = {FILES[k]: v for k, v in have.items()}
        beside = {"out2/index.json": b"2", "out2/chunk-0-0.bin": b"c", "out.txt": b"t", "a/out/index.json": b"a"}
        store = None
        if remote:
            store = Store([(k, v) for k, v in beside.items()] + [("out/" + k, v) for k, v in start.items()])
            out = f"{task['dest']}://b/out{task['slash']}"
        else:
            out = os.path.join(d, "out") + task["slash"]
            for k, v in list(beside.items()) + [("out/" + k, v) for k, v in start.items()]:
                os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
                with open(os.path.join(d, k), "wb") as f:
                    f.write(v)

        def everything():
            if remote:
                return {k: v for (k, v), live in zip(store.objects, store.live) if live}
            return {k: v for k, v in P.tree(d).items() if not k.startswith("run-")}

        err = None
        with P.machine(d, P.Kill(), store):
            def write(x, output_dir):
                with open(os.path.join(output_dir, f"m{x}.txt"), "w") as f:
                    f.write("m")

            try:
                if op == "optimize":
                    P.fns.optimize(fn=lambda x: x, inputs=[5, 6], output_dir=out, chunk_size=1, num_workers=1, mode=mode, use_checkpoint=ckpt)
                else:
                    P.fns.map(write, [5, 6], out, num_workers=1, error_when_not_empty=strict)
            except (core.PathAbort, P.Killed):
                raise
            except Exception as e:
                err = e
        now = everything()
        ctx.check({k: v for k, v in now.items() if not k.startswith("out/")} == beside, "something beside the destination is changed")
        ctx.reach("sibling")
        ctx.reach("slash", bool(task["slash"]))
        f = {k[4:]: v for k, v in now.items() if k.startswith("out/")}
        others = {FILES[k]: have[k] for k in ("other", "weights", "sub", "subindex") if k in have}
        held = "index" in have
        if op == "map":
            if err is not None:
                ctx.check(strict and bool(have) and f == start, "map is refused for no reason, or after a change")
                ctx.reach("map refused")
            else:
                ctx.check(not (strict and remote and have), "map into a destination that is not empty is not refused")
                ctx.check(all(f.get(k) == v for k, v in start.items()), "map changes what was there")
                ctx.check(all(f.get(f"m{x}.txt") == b"m" for x in (5, 6)), "a product of map is missing")
                ctx.reach("map allowed", bool(have))
            return
        if mode == "other":
            ctx.check(err is not None and f == start, "an invalid mode is not refused, or after a change")
            ctx.reach("invalid mode")
            return
        if mode is None and (held or remote and have and not ckpt):
            ctx.check(err is not None, "an existing dataset is not refused")
        if err is not None:
            allowed = mode is None and (held or remote and bool(have))
            if not allowed and os.environ.get("PIPE_V"):
                import traceback

                os.write(2, "".join(traceback.format_exception(err)).encode())
            ctx.check(allowed, "a run is refused for no reason")
            ctx.check(f == start, "a refused run changes the destination")
            ctx.reach("refused")
            return
        if mode == "overwrite" and remote:
            ctx.check(not any(k in f for k in others), "overwriting a remote directory does not clear it")
        else:
            ctx.check(all(f.get(k) == v for k, v in others.items()), "a file that is no part of a dataset is changed or deleted")
            ctx.reach("other files", bool(others))
        index = json.loads(f["index.json"])
        names = [c["filename"] for c in index["chunks"]]
        ctx.check(all(x in f for x in names), "the index names a chunk that is not there")
        got = [int(x) for x in P.read_dataset(f)]
        if mode == "append" and held:
            ctx.check(got == [1, 2, 5, 6], "appending does not keep the dataset")
            ctx.reach("appended")
        else:
            ctx.check(got == [5, 6], "the dataset is not that of the run")
            ctx.reach("overwritten", mode == "overwrite" and held)
            ctx.reach("fresh", not have)
            ctx.reach("leftovers", "chunk" in have and not held)
            ctx.reach("resumed", ckpt and "checkpoint" in have)
