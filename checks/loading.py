"""Shared harness pieces for the data-loading properties: datasets with symbolic chunk sizes, delivered through the
real StreamingDataset / StreamingDataLoader."""
import copy

from symx import core, world, mpsim
from symx.core import sym_and, sym_or, ite, sym_sum

world.install()

from litdata.streaming import StreamingDataset  # noqa: E402
from litdata.streaming.dataloader import StreamingDataLoader  # noqa: E402
from litdata.streaming.combined import CombinedStreamingDataset  # noqa: E402


def ident(x):
    return x


def make_ds(ctx, d, task, rank=0, **kw):
    kw.setdefault("shuffle", task.get("shuffle", False))
    kw.setdefault("seed", task.get("seed", 3))
    return StreamingDataset(d, item_loader=world.item_loader(ctx), **kw)


def make_loader(ctx, ds, bs, nw, **kw):
    kw.setdefault("collate_fn", ident)
    if nw > 0:
        mp = mpsim.context(ctx)
        if mp is not None:
            kw["multiprocessing_context"] = mp
    return StreamingDataLoader(ds, batch_size=bs, num_workers=nw, **kw)


def take(loader, k=None):
    """Batches of the loader: all of them, or the first k (then the iterator is abandoned)."""
    out = []
    if k is not None and k == 0:
        return out
    it = iter(loader)
    for b in it:
        out.append([conc(v) for v in b])
        if k is not None and len(out) == k:
            break
    return out


def conc(v):
    if type(v) is dict:
        return v
    try:
        return int(v)
    except TypeError:
        return v


def flat(batches):
    return [x for b in batches for x in b]


def all_values(sizes):
    return [world.value_of(i, j) for i, s in enumerate(sizes) for j in range(int(s))]
