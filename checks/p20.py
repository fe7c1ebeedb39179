"""P20: deleting a remote directory never touches anything outside it, and leaves nothing in it."""
from symx import core, world
from symx.core import sym_and, sym_or, sym_not, implies
from symx.strs import string

from checks.stores import Store, connected, m_fs, m_res

from litdata.processing import data_processor as dp  # noqa: E402

ID = "P20"
REACH = ["sibling", "inside", "marker", "exact", "paged", "empty", "other-case", "kept"]
STUBS = ["the object store: a list of objects behind the calls of the S3 and Google Cloud clients, in any order, listed in pages"]
OUTSIDE = "objects created by others while the deletion runs; buckets' own permissions and versions"
ALPHABET = "datx/.-2"


def BOUNDS(tier):
    q = tier == "quick"
    return {"objects": f"1..{3 if q else 4} (in one page: 2 in quick), each name any text of 1..{14 if q else 20} letters out of {ALPHABET!r}",
            "directories": "data, data/, a/data, a/data/, the bucket itself, a file, the checkpoints of a destination",
            "pages": "of 1, 2 or all objects", "stores": "s3, gs"}


DIRS = {"plain": "data", "slash": "data/", "deep": "a/data", "deepslash": "a/data/", "root": "", "file": "data/x.dat"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for scheme in ("s3", "gs"):
        for d in DIRS:
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                for page in ((1, 2, 1000) if scheme == "s3" else (1000,)):
                    if page < 1000 and page >= n or q and n == 3 and page == 1000:
                        continue
                    out.append({"name": f"{scheme}-{d}-{n}-{page}", "kind": "delete", "scheme": scheme, "dir": d, "n": n, "page": page})
            for n in (1, 2):
                out.append({"name": f"{scheme}-{d}-empty-{n}", "kind": "empty", "scheme": scheme, "dir": d, "n": n, "page": 1000})
        for via in ("overwrite", "checkpoint", "checkpoints"):
            for d in ("plain", "deepslash"):
                out.append({"name": f"{scheme}-{d}-{via}", "kind": via, "scheme": scheme, "dir": d, "n": 2, "page": 1000})
    for t in out:
        t["opts"] = {"validate_cap": 6}
    return out


def harness(task):
    return lambda ctx: run(task, ctx)


def inside(key, directory):
    d = directory.rstrip("/")
    return key.startswith(d + "/") if d else True


def run(task, ctx):
    d, n, scheme, kind = DIRS[task["dir"]], task["n"], task["scheme"], task["kind"]
    hi = 14 if n < 4 else 20
    keys = [string(ctx, f"key{i}", 1, hi, ALPHABET) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(keys[i] != keys[j])
    url = f"{scheme}://b/{d}"
    target = d
    if kind == "checkpoints":
        target = d.rstrip("/") + "/.checkpoints"
    with world.world(ctx), world.quiet(), connected(Store([(k, b"") for k in keys], task["page"])) as s:
        if kind == "empty":
            got = m_fs._get_fs_provider(url, {}).is_empty(url)
            ins = [inside(k, d) for k in keys]
            # an object that only stands for the directory itself may count or not
            real = sym_or(*[sym_and(c, sym_not(k == d.rstrip("/") + "/")) for c, k in zip(ins, keys)])
            ctx.check(implies(real, not got), "a directory with objects is called empty")
            ctx.check(implies(sym_not(sym_or(*ins, *[k == d for k in keys])), bool(got)), "a directory without objects is called non-empty")
            ctx.reach("empty", bool(got))
            return
        if kind == "delete":
            m_fs._get_fs_provider(url, {}).delete_file_or_directory(url)
        elif kind == "checkpoints":
            p = dp.DataProcessor.__new__(dp.DataProcessor)
            p.output_dir, p.storage_options = m_res.Dir(path=None, url=url), {}
            p._cleanup_checkpoints()
        else:
            # an index file is not among the names (its letters are not), so resuming is possible
            m_res._assert_dir_has_index_file(m_res.Dir(path=None, url=url), mode="overwrite" if kind == "overwrite" else None,
                                             use_checkpoint=kind == "checkpoint")
        ctx.check(not s.foreign, "another bucket is touched")
        for i, k in enumerate(keys):
            gone = i in s.removed
            inn = inside(k, target)
            if kind == "checkpoint":
                ctx.check(not gone, "resuming deletes an object")
                ctx.reach("kept", inn)
                continue
            ctx.check(implies(gone, sym_or(inn, k == target, k == target.rstrip("/"))), "an object outside of the directory is deleted")
            ctx.check(implies(inn, gone), "an object of the directory is left")
            if task["dir"] == "file":
                ctx.check(implies(k == target, gone), "the file is left")
                ctx.reach("exact", k == target)
            ctx.reach("inside", inn)
            if target:
                ctx.reach("sibling", sym_and(k.startswith(target.rstrip("/")), sym_not(inn), sym_not(k == target.rstrip("/"))))
                ctx.reach("other-case", sym_not(k.startswith(target[:2])))
                ctx.reach("marker", k == target.rstrip("/") + "/")
        ctx.reach("paged", task["page"] < n and sym_and(*[inside(k, target) for k in keys]))
