"""P21: processing never deletes (or changes) the user's input files."""
import os

from symx import core, world
from symx.core import implies, sym_and, sym_not, sym_or

from checks import pipeline as P

ID = "P21"
REACH = ["inside", "outside", "sibling", "link", "like the cache", "nested", "two files", "failing input", "shared", "copied", "removed", "input dir is a link", "input dir like the cache"]
STUBS = ["the processes of a run: coroutines that switch where a process waits for a queue or for another process",
         "deleting calls are refused outside of the scratch directory, and recorded"]
OUTSIDE = ("inputs kept in the run's own cache directories (these are emptied at the start of every run); input directories that contain "
           "the cache directories; inputs on remote stores (only lightning.ai's own mounts are fetched from a remote store)")

#        where a user's file may be, relative to the scratch directory
PLACES = {"inside": "user/a{i}.txt", "deep": "user/x/y/a{i}.txt", "outside": "other/a{i}.txt", "sibling": "user2/a{i}.txt", "above": "a{i}.txt",
          "link": "user/link{i}.txt", "like the cache": "run-data-mine/a{i}.txt", "like the chunks": "run-cache2/a{i}.txt", "nested": "user/{d}/user/a{i}.txt",
          "mirror": "run-datauser/a{i}.txt", "like tmp": "run-tmp2/a{i}.txt"}
GROUPS = [("inside", "outside", "sibling"), ("inside", "link", "like the cache"), ("inside", "nested", "like the chunks"), ("deep", "above", "mirror"), ("inside", "like tmp", "outside")]


def BOUNDS(tier):
    q = tier == "quick"
    return {"inputs": f"1..{2 if q else 3} of 1 or 2 files", "places": sorted(PLACES), "input_dir": "none, given, given through a link, one that starts like the cache directory",
            "operations": "map, optimize (with and without checkpoints)", "the function": "may fail on any input", "downloaders": "1, 2"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for op in ("optimize", "checkpoint", "map"):
        for ind in ("none", "user", "link", "run-data-mine"):
            for g, group in enumerate(GROUPS):
                for files in (1, 2):
                    if q and files == 2 and (op == "checkpoint" or ind in ("none", "link")):
                        continue
                    out.append({"name": f"{op}-{ind}-{g}-{files}", "op": op, "ind": ind, "group": list(group), "files": files,
                                "n": (2 if files == 1 or not q else 2) if q else 3 if files == 1 else 2, "opts": {"validate_cap": 4}})
    return out


def harness(task):
    return lambda ctx: run(task, ctx)


def run(task, ctx):
    n = ctx.pick("n", list(range(1, task["n"] + 1)))
    down = ctx.pick("downloaders", [1, 2])
    picks = [[ctx.pick(f"place{i}.{j}", task["group"]) for j in range(task["files"])] for i in range(n)]
    fails = [ctx.bool(f"fails{i}") for i in range(n)]
    with world.world(ctx) as d:
        d = os.path.realpath(d)
        names = {}
        for i in range(n):
            for j in range(task["files"]):
                place = picks[i][j]
                p = os.path.join(d, PLACES[place].format(i=f"{i}{j}", d=d.lstrip("/")))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if place == "link":
                    t = os.path.join(d, "store", f"{i}{j}.txt")
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                    with open(t, "w") as f:
                        f.write(f"{i}{j}")
                    os.symlink(t, p)
                else:
                    with open(p, "w") as f:
                        f.write(f"{i}{j}")
                names[i, j] = p
        os.makedirs(os.path.join(d, "user"), exist_ok=True)
        os.makedirs(os.path.join(d, "run-data-mine"), exist_ok=True)
        os.symlink(os.path.join(d, "user"), os.path.join(d, "ulink"))
        with open(os.path.join(d, "user", "unrelated.txt"), "w") as f:
            f.write("user's")
        ind = {"none": None, "user": os.path.join(d, "user"), "link": os.path.join(d, "ulink"), "run-data-mine": os.path.join(d, "run-data-mine")}[task["ind"]]
        own = tuple(os.path.join(d, x) for x in ("run-cache", "run-data", "run-tmp", "out"))

        def users():
            return {k: v for k, v in P.tree(d).items() if not os.path.join(d, k).startswith(tuple(o + "/" for o in own))}

        before = users()
        inputs = [names[i, 0] if task["files"] == 1 else [names[i, 0], names[i, 1]] for i in range(n)]
        seen = []

        def fn(x, *a):
            xs = [x] if isinstance(x, str) else x
            i = None
            for p in xs:
                with open(p) as f:
                    t = f.read()
                i = int(t[:-1])
                ctx.check(names[i, int(t[-1])] == p or p.startswith(own[1] + "/") or os.path.realpath(names[i, int(t[-1])]) == p, "the function is given another file")
                if p.startswith(own[1] + "/"):
                    ctx.reach("copied")
            seen.append(i)
            if fails[i]:
                raise ValueError("the user's function fails")
            if task["op"] == "map":
                with open(os.path.join(a[0], f"{i}.txt"), "w") as f:
                    f.write("out")
                return None
            return i

        err = None
        with P.machine(d, P.Kill()) as m:
            def write(x, output_dir):
                return fn(x, output_dir)

            try:
                if task["op"] == "map":
                    P.fns.map(write, inputs, os.path.join(d, "out"), input_dir=ind, num_workers=1, num_downloaders=down)
                else:
                    P.fns.optimize(fn=fn, inputs=inputs, output_dir=os.path.join(d, "out"), input_dir=ind, num_workers=1, num_downloaders=down,
                                   chunk_size=1, use_checkpoint=task["op"] == "checkpoint")
            except (P.Killed, core.PathAbort):
                raise
            except Exception as e:
                err = e
                if not any(fails[i] for i in seen):
                    core_fail(ctx, e)
            removed, outside = m.guard.removed, m.guard.outside
        after = users()
        ctx.check(set(before) <= set(after), "a file of the user is deleted")
        ctx.check(all(after.get(k) == v for k, v in before.items()), "a file of the user is changed")
        ctx.check(not outside, "a file outside of the scratch directory would be deleted")
        ctx.check(all((p + "/").startswith(tuple(o + "/" for o in own)) for p in removed), "something outside of the cache directories is deleted")
        if err is None:
            ctx.check(sorted(seen) == list(range(n)), "an input is not processed once")
        for i in range(n):
            for j in range(task["files"]):
                ctx.reach(picks[i][j])
        ctx.reach("two files", task["files"] == 2)
        ctx.reach("failing input", err is not None)
        ctx.reach("removed", bool(removed))
        ctx.reach("shared", n > 1 and picks[0] == picks[1])
        ctx.reach("input dir is a link", task["ind"] == "link")
        ctx.reach("input dir like the cache", task["ind"] == "run-data-mine")


def core_fail(ctx, e):
    if os.environ.get("PIPE_V"):
        import traceback

        os.write(2, "".join(traceback.format_exception(e)).encode())
    ctx.check(False, "a run fails though no input does")
