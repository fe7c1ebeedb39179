"""Shared pieces for the combined-dataset properties."""
import contextlib
import os
import random

from checks.loading import *  # noqa: F403
from checks.loading import CombinedStreamingDataset, StreamingDataset, core, world
import litdata.streaming.combined as combined_mod

MEMBER = 10_000_000


class ScriptedRandom(random.Random):
    """random.Random whose weighted choices are inputs of the check: draw number i of a run returns any of the candidates
    that have a positive weight.  Two generators with the same seed replay the same draws."""

    ctx = None
    draws = []  # per draw: the choice made among the remaining candidates, as a function of their number
    log = []
    cap = 40

    def __init__(self, seed=None):
        super().__init__(0)
        self.k = 0

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        assert k == 1
        cls = ScriptedRandom
        if self.k >= cls.cap:
            raise core.Violated("more draws than samples")
        cls.log.append((list(population), None if weights is None else list(weights)))
        while len(cls.draws) <= self.k:
            # a draw is an unbounded fraction; what it selects depends on how many candidates are left
            cls.draws.append({})
        n = len(population)
        d = cls.draws[self.k]
        if n not in d:
            d[n] = cls.ctx.pick(f"draw{self.k}_{n}", list(range(n)))
        self.k += 1
        return [population[d[n]]]


@contextlib.contextmanager
def scripted(ctx):
    real = combined_mod.random
    ScriptedRandom.ctx, ScriptedRandom.draws, ScriptedRandom.log = ctx, [], []

    class _R:
        Random = ScriptedRandom

        def __getattr__(self, k):
            return getattr(real, k)

    combined_mod.random = _R()
    try:
        yield ScriptedRandom
    finally:
        combined_mod.random = real


def members(ctx, d, sizes_per_member, task, make=True, **kw):
    out = []
    for i, sizes in enumerate(sizes_per_member):
        p = os.path.join(d, f"m{i}")
        if make:
            world.make_dataset(ctx, p, sizes, offset=MEMBER * i)
        out.append(StreamingDataset(p, item_loader=world.item_loader(ctx, MEMBER * i), shuffle=task.get("shuffle", False),
                                    seed=3, **kw))
    return out


def split(vals, n):
    """Per member, the samples of a sequence, in order."""
    out = [[] for _ in range(n)]
    for v in vals:
        out[int(v) // MEMBER].append(int(v) % MEMBER)
    return out
