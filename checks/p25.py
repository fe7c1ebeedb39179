"""P25: parquet datasets return the right row for every layout of files and row groups."""
import os
import sys
import types

from symx import core, world
from symx.core import sym_and, sym_or, sym_sum

world.install()

from litdata.processing.readers import ParquetReader  # noqa: E402
from litdata.streaming import StreamingDataset  # noqa: E402
from litdata.streaming.item_loader import ParquetLoader  # noqa: E402
from litdata.streaming.writer import index_parquet_dataset  # noqa: E402

ID = "P25"
REACH = ["uneven groups", "last group", "group read again", "group released", "whole file", "end to end", "several files", "reshard", "same name", "empty file", "closed between"]
STUBS = ["pyarrow and polars behind the loader's symbolic task: a file is its row groups, a frame the range of its rows; the other tasks use the real libraries"]


def BOUNDS(tier):
    q = tier == "quick"
    return {"row groups": f"1..{3 if q else 4} of any size in [1, 1000] rows, or empty ones", "reads": f"any {3 if q else 4} rows of a file, the chunk closed or not between them",
            "end to end": f"1..{2 if q else 3} files of 1..2 row groups of 1..3 rows", "resharding": "1..2 files of 0..4 rows, of the same or different names, into pieces of 1..3 rows"}


OUTSIDE = "the decoding of parquet files, which is pyarrow's and polars'; remote parquet datasets"


def tasks(tier):
    q = tier == "quick"
    out = []
    for low in (True, False):
        for g in ((1, 2, 3) if q else (1, 2, 3, 4)):
            out.append({"name": f"rows-{low}-{g}", "kind": "rows", "low": low, "g": g, "reads": 3 if q else 4, "S": 1000,
                        "opts": {"validate_cap": 4}})
        for f in ((1, 2) if q else (1, 2, 3)):
            out.append({"name": f"dataset-{low}-{f}", "kind": "dataset", "low": low, "files": f})
    for f in (1, 2):
        out.append({"name": f"reshard-{f}", "kind": "reshard", "files": f})
    return out


def harness(task):
    return globals()["h_" + task["kind"]].__get__(task)


class Frame:
    def __init__(self, start, n):
        self.start, self.n = start, n

    def row(self, i, named=False):
        if not (i >= 0 and i < self.n):
            raise IndexError("row out of range")
        return {"a": self.start + i} if named else (self.start + i,)

    def __sx_len__(self):
        return self.n

    height = num_rows = property(lambda self: self.n)

    def slice(self, i, n=None):
        return Frame(self.start + i, self.n - i if n is None else n)

    def collect(self, **k):
        return self


class File:
    def __init__(self, sizes):
        self.sizes = sizes
        self.num_row_groups = len(sizes)
        self.metadata = self

    @property
    def num_rows(self):
        return sym_sum(self.sizes)

    def row_group(self, i):
        if not 0 <= i < len(self.sizes):
            raise IndexError("row group out of range")
        return types.SimpleNamespace(num_rows=self.sizes[int(i)])

    def read_row_group(self, i, *a, **k):
        i = int(i)
        if not 0 <= i < len(self.sizes):
            raise IndexError("row group out of range")
        return Frame(sym_sum(self.sizes[:i]) if i else 0, self.sizes[i])

    def close(self, *a):
        pass


def fake_libraries(sizes):
    pq, pl = types.ModuleType("pyarrow.parquet"), types.ModuleType("polars")
    pq.ParquetFile = lambda path, **k: File(sizes)
    pq.read_metadata = lambda path, **k: File(sizes)
    pl.scan_parquet = pl.read_parquet = lambda path, **k: Frame(0, sym_sum(sizes))
    pl.from_arrow = lambda t, **k: t
    return {"pyarrow.parquet": pq, "polars": pl}


def write_file(path, sizes, start=0):
    import pyarrow as pa
    import pyarrow.parquet as pq

    w = pq.ParquetWriter(path, pa.schema([("a", pa.int64())]))
    for s in sizes:
        w.write_table(pa.table({"a": pa.array(range(start, start + int(s)), pa.int64())}), row_group_size=max(int(s), 1))
        start += int(s)
    w.close()


def h_rows(task, ctx):
    """Any reads of one file, with row groups of any sizes."""
    sizes = [ctx.int(f"s{i}", 1, task["S"]) for i in range(task["g"])]
    if task["g"] == 3 and ctx.bool("empty"):
        sizes[1] = 0
    reads = [ctx.int(f"r{k}", 0, task["g"] * task["S"]) for k in range(task["reads"])]
    total = sym_sum(sizes)
    for r in reads:
        ctx.assume(r < total)
    begin = ctx.int("begin", 0, 5)
    closed = ctx.bool("closed")
    with world.scratch() as d:
        path = os.path.join(d, "f.parquet")
        fakes = {}
        if ctx.symbolic:
            fakes = fake_libraries(sizes)
            with open(path, "wb") as f:
                f.write(b"x" * 10)
        else:
            write_file(path, sizes)
        old = {k: sys.modules.get(k) for k in fakes}
        import pyarrow as pa

        old_pq = getattr(pa, "parquet", None)
        sys.modules.update(fakes)
        if fakes:
            pa.parquet = fakes["pyarrow.parquet"]
        try:
            with world.quiet():
                loader = ParquetLoader(low_memory=task["low"])
            loader.setup({"data_format": ["int64"]}, [{"chunk_size": total}], {})
            for k, r in enumerate(reads):
                with world.quiet():
                    got = loader.load_item_from_chunk(begin + r, 0, path, begin, 10)
                ctx.check(list(got) == ["a"], "another row structure")
                ctx.check(got["a"] == r, "another row is returned")
                if k == 0 and closed:
                    loader.close(0)
                    ctx.reach("closed between")
        finally:
            for k, v in old.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            if fakes:
                pa.parquet = old_pq
    if task["low"]:
        if task["g"] > 1:
            ctx.reach("uneven groups", sizes[0] != sizes[-1])
            ctx.reach("last group", reads[0] >= total - sizes[-1])
        ctx.reach("group read again", sym_and(sizes[0] > 2, *[r < sizes[0] for r in reads]))
        ctx.reach("group released", sym_and(sizes[0] == 1, reads[0] == 0))
    else:
        ctx.reach("whole file")


def h_dataset(task, ctx):
    """Real files, indexed and read by position and by iteration."""
    layout = [[int(ctx.int(f"s{i}_{j}", 1, 3)) for j in range(int(ctx.int(f"g{i}", 1, 2)))] for i in range(task["files"])]
    pre = ctx.bool("pre")
    by_index = ctx.pick("how", ["iterate", "index", "backwards"])
    with world.scratch() as d, world.quiet():
        names = {}
        for i, sizes in enumerate(layout):
            write_file(os.path.join(d, f"f{i}.parquet"), sizes, 100 * i)
            names[f"f{i}.parquet"] = [100 * i + k for k in range(sum(sizes))]
        index_parquet_dataset(d)
        import json

        with open(os.path.join(d, "index.json")) as f:
            chunks = json.load(f)["chunks"]
        ctx.check(sorted(c["filename"] for c in chunks) == sorted(names), "the index doesn't list every file once")
        want = [x for c in chunks for x in names[c["filename"]]]
        with world.env():
            ds = StreamingDataset(d, item_loader=ParquetLoader(pre_load_chunk=bool(pre), low_memory=task["low"]))
            ctx.check(len(ds) == len(want), "another length than the number of rows")
            if by_index == "iterate":
                got = [r["a"] for r in ds]
            elif by_index == "index":
                got = [ds[i]["a"] for i in range(len(want))]
            else:
                got = [ds[i]["a"] for i in reversed(range(len(want)))][::-1]
    ctx.check(got == want, "the rows differ")
    ctx.reach("end to end")
    ctx.reach("several files", len(layout) > 1)


def h_reshard(task, ctx):
    n = [int(ctx.int(f"n{i}", 0, 4)) for i in range(task["files"])]
    rows = ctx.pick("rows", [1, 2, 3])
    same = bool(ctx.bool("same name"))
    again = bool(ctx.bool("again"))
    with world.scratch() as d, world.quiet():
        import pyarrow.parquet as pq

        paths = []
        for i, k in enumerate(n):
            os.makedirs(os.path.join(d, f"in{i}"))
            paths.append(os.path.join(d, f"in{i}", "f.parquet" if same else f"f{i}.parquet"))
            write_file(paths[-1], [k], 100 * i)
        r = ParquetReader(os.path.join(d, "cache"), num_rows=rows)
        items = r.remap_items(list(paths), 1)
        if again:
            ctx.check(ParquetReader(os.path.join(d, "cache"), num_rows=rows).remap_items(list(paths), 1) == items, "resharding again gives other pieces")
        ctx.check(len(set(items)) == len(items), "a piece is listed twice")
        got = []
        for x in items:
            vals = r.read(x).read().column("a").to_pylist()
            ctx.check(0 < len(vals) <= rows, "a piece of another size than asked for")
            got += vals
        if r.parquet_file is not None:
            r.parquet_file.close()
        left = [pq.read_table(p).column("a").to_pylist() for p in paths]
    ctx.check(got == [100 * i + k for i, m in enumerate(n) for k in range(m)], "the rows of the pieces differ from those of the files")
    ctx.check(left == [[100 * i + k for k in range(m)] for i, m in enumerate(n)], "an input file changed")
    ctx.reach("reshard")
    ctx.reach("same name", same and len(n) > 1)
    ctx.reach("empty file", 0 in n)
