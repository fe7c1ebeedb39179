"""P18: merging datasets concatenates them, and refuses incompatible ones."""
import json
import os
import types

from symx import core, world
from symx.core import implies, sym_and, sym_not, sym_or

from checks import pipeline as P
from checks.stores import Store

import torch  # noqa: E402
from litdata.streaming.item_loader import PyTreeLoader, TokensLoader  # noqa: E402

ID = "P18"
REACH = ["merged", "refused", "three", "same twice", "compressed", "failed copy", "taken", "reordered", "other loader", "encrypted", "empty"]
STUBS = ["the object store: a list of objects behind the calls of the clients; copies may fail", "the pool of copying threads: its tasks run one after the other, in either order",
         "the processes of the runs that make the inputs (see P16)"]
OUTSIDE = "encryption keys (an index does not tell them apart); different stores for the inputs and the output (refused as not implemented); objects changing during a merge"

KINDS = {
    "int": lambda v: v,
    "float": lambda v: float(v),
    "dict": lambda v: {"a": v, "b": v + 1000},
    "other order": lambda v: {"b": v + 1000, "a": v},
    "other name": lambda v: {"a": v, "c": v + 1000},
    "list": lambda v: [v, v + 1000],
    "tensor": lambda v: torch.tensor([v, v + 1]),
    "tokens": lambda v: torch.tensor([v, v + 1]),
    "zstd": lambda v: v,
    "sample-encrypted": lambda v: v,
    "chunk-encrypted": lambda v: v,
    "none": lambda v: None,
}
PAIRS = [("int", "float", "int"), ("dict", "other order", "other name"), ("dict", "list", "dict"), ("tensor", "tokens", "tensor"), ("int", "zstd", "zstd"),
         ("int", "sample-encrypted", "chunk-encrypted"), ("int", "none", "int")]


def BOUNDS(tier):
    q = tier == "quick"
    return {"inputs": "2, 3 datasets (also one given twice)", "samples of a dataset": "1..3, in chunks of 1 or 2, made by 1 or 2 workers",
            "kinds": sorted(KINDS), "destination": "local, s3, gs: absent, empty or holding a dataset", "failing copies": "at most one, any"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for g, kinds in enumerate(PAIRS):
        out.append({"name": f"kinds-{g}", "dest": "local", "kinds": list(kinds), "sizes": (1,), "n": 2, "fail": False})
    for dest in ("local", "s3", "gs"):
        for n in (2, 3):
            for w in (1, 2):
                out.append({"name": f"{dest}-{n}-{w}", "dest": dest, "kinds": ["int"], "sizes": (1, 3) if n == 2 else (1, 2), "n": n, "workers": w, "fail": False, "dup": True})
            out.append({"name": f"{dest}-{n}-fail", "dest": dest, "kinds": ["int"], "sizes": (1, 2), "n": n, "fail": True})
        out.append({"name": f"{dest}-taken", "dest": dest, "kinds": ["int"], "sizes": (1,), "n": 2, "fail": False, "taken": True})
    for t in out:
        t["opts"] = {"validate_cap": 6}
    return out


def harness(task):
    return lambda ctx: run(task, ctx)


class Pool:
    def __init__(self, *a, **k):
        self.fs = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, f, *a, **k):
        class F:
            def run(self):
                try:
                    self.r, self.e = f(*a, **k), None
                except (core.PathAbort, P.Killed):
                    raise
                except Exception as e:
                    self.e = e

            def result(self, timeout=None):
                if not hasattr(self, "e"):
                    self.run()
                if self.e is not None:
                    raise self.e
                return self.r

        x = F()
        if not Pool.late:
            x.run()
        return x

    late = False


def plain(x):
    return [int(y) for y in x.tolist()] if isinstance(x, torch.Tensor) else x


def run(task, ctx):
    remote = task["dest"] != "local"
    n = task["n"]
    kinds = [ctx.pick(f"kind{i}", task["kinds"]) for i in range(n)]
    sizes = [ctx.pick(f"size{i}", list(task["sizes"])) for i in range(n)]
    chunk = ctx.pick("chunk", [1, 2])
    dup = bool(task.get("dup")) and ctx.bool("the last one is the first one again")
    late = bool(ctx.bool("late copies")) if task["fail"] else False
    copies = [0]
    with world.world(ctx) as d:
        store = Store([]) if remote else None
        base = f"{task['dest']}://b" if remote else d
        dirs = [f"{base}/{'out-in' if i == 0 else 'in'}{i}" for i in range(n)]
        out = f"{base}/out"
        want = []
        with P.machine(d, P.Kill(), store):
            for i, (k, s) in enumerate(zip(kinds, sizes)):
                vals = [100 * (i + 1) + j for j in range(s)]
                enc = None
                if "encrypted" in k:
                    from litdata.utilities.encryption import FernetEncryption

                    enc = FernetEncryption(password="p", level=k.split("-")[0])
                    enc.salt = b"0" * 16
                P.fns.optimize(fn=KINDS[k], inputs=vals, output_dir=dirs[i], chunk_size=chunk, num_workers=task.get("workers", 1),
                               compression="zstd" if k == "zstd" else None, encryption=enc, item_loader=TokensLoader() if k == "tokens" else None, reorder_files=False)
                want.append([] if k == "none" else [plain(KINDS[k](v)) for v in vals])
            if task.get("taken"):
                P.fns.optimize(fn=lambda x: x, inputs=[7], output_dir=out, chunk_size=1, num_workers=1)

        def files(x):
            if remote:
                pre = x[len(base) + 1:] + "/"
                return {k[len(pre):]: v for (k, v), live in zip(store.objects, store.live) if live and k.startswith(pre)}
            return P.tree(x)

        if dup:
            dirs[-1], want[-1], kinds[-1] = dirs[0], want[0], kinds[0]
        before, taken = [files(x) for x in dirs], files(out)
        err = None
        old = P.fns.concurrent
        P.fns.concurrent = types.SimpleNamespace(futures=types.SimpleNamespace(ThreadPoolExecutor=Pool, as_completed=lambda fs: list(fs), Future=object))
        Pool.late = late
        try:
            with P.machine(d, P.Kill(), store) as m:
                def refuse(x):
                    copies[0] += 1
                    return bool(ctx.bool(f"fails {copies[0]}")) if not any_failed else False

                any_failed = []

                def refuse1(x):
                    if x.endswith("index.json"):
                        return False
                    r = refuse(x)
                    if r:
                        any_failed.append(x)
                    return r

                if task["fail"]:
                    if remote:
                        store.fail = refuse1
                    else:
                        m.kill.refuse = refuse1
                P.fns.merge_datasets(dirs, out, max_workers=2)
        except (core.PathAbort, P.Killed):
            raise
        except Exception as e:
            err = e
        finally:
            P.fns.concurrent = old
            if store is not None:
                store.fail = None
        ctx.check([files(x) for x in dirs] == before, "an input is changed")
        f = files(out)
        if task.get("taken"):
            ctx.check(err is not None and f == taken, "an existing dataset is merged over")
            ctx.reach("taken")
            return
        if any_failed:
            ctx.check(err is not None and "index.json" not in f, "a merge with a failed copy does not fail")
            ctx.reach("failed copy")
            return
        ctx.reach("empty", "none" in kinds)
        ctx.reach("reordered", len(set(kinds)) > 1 and kinds[0] == "dict")
        ctx.reach("other loader", len(set(kinds)) > 1 and kinds[0] == "tokens")
        ctx.reach("encrypted", len(set(kinds)) > 1 and "encrypted" in kinds[0])
        if err is not None:
            same = len(set(kinds)) == 1 and kinds[0] != "none"
            if same and os.environ.get("PIPE_V"):
                import traceback

                os.write(2, "".join(traceback.format_exception(err)).encode())
            ctx.check(not same, "datasets that are alike are refused")
            ctx.check("index.json" not in f, "a refused merge leaves an index")
            ctx.reach("refused")
            return
        names = [c["filename"] for c in json.loads(f["index.json"])["chunks"]]
        ctx.check(len(set(names)) == len(names), "two chunks have the same name")
        ctx.check(all(x in f for x in names), "the index names a chunk that is not there")
        if len(set(kinds)) > 1:
            # whatever is accepted must read back: what one reader cannot read as one dataset had to be refused
            ctx.check(not any("encrypted" in k for k in kinds) and not ("tokens" in kinds), "incompatible datasets are merged")
        if not any("encrypted" in k for k in kinds):
            try:
                got = [plain(x) for x in P.read_dataset(f, (lambda: TokensLoader(2)) if kinds[0] == "tokens" else None)]
            except (core.PathAbort, P.Killed):
                raise
            except Exception as e:
                got = None
            ctx.check(got is not None, "the merged dataset can't be read")
            ctx.check(got == sum(want, []), "the merged dataset is not its inputs one after the other")
        else:
            ctx.check([c["chunk_size"] for c in json.loads(f["index.json"])["chunks"]] == [c["chunk_size"] for b in before for c in json.loads(b["index.json"])["chunks"]], "chunks are lost")
            bs = [b[c["filename"]] for b in before for c in json.loads(b["index.json"])["chunks"]]
            ctx.check([f[x] for x in names] == bs, "the merged dataset is not its inputs one after the other")
        ctx.reach("merged")
        ctx.reach("three", n == 3)
        ctx.reach("same twice", dup)
        ctx.reach("compressed", kinds[0] == "zstd")
