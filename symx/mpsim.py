"""In-process stand-in for torch's DataLoader worker processes (exploration only; replays use real processes).

A multiprocessing context whose "processes" are run synchronously: each worker owns a deep copy of the dataset (what a
fork or a pickle gives it), sees its own worker info, and serves index requests in order, exactly as torch's worker
loop does.  Results are handed back whenever the main process asks for one."""
import collections
import copy
import multiprocessing.context
import os
import queue

import torch.utils.data._utils.worker as tw
from torch.utils.data.dataloader import _DatasetKind
from torch._utils import ExceptionWrapper


class _Q:
    def __init__(self):
        self.items = collections.deque()

    def put(self, x, *a, **k):
        self.items.append(x)

    def get(self, timeout=None, *a, **k):
        if not self.items:
            raise queue.Empty
        return self.items.popleft()

    def empty(self):
        return not self.items

    def cancel_join_thread(self):
        pass

    def close(self):
        pass

    def join_thread(self):
        pass


class _ResultQ(_Q):
    ctx = None

    def get(self, timeout=None, *a, **k):
        n = 0
        while not self.items:
            if not self.ctx._step():
                raise queue.Empty
            n += 1
        return self.items.popleft()


class _Event:
    def __init__(self):
        self.v = False

    def set(self):
        self.v = True

    def is_set(self):
        return self.v


class _Proc:
    def __init__(self, ctx, target=None, args=(), kwargs=None):
        self.ctx = ctx
        self.args = args
        self.daemon = True
        self.pid = os.getpid()
        self.alive = False

    def start(self):
        (self.kind, holder, self.iq, self.dq, self.done, self.auto, self.collate, self.drop_last, _seed, self.init_fn,
         self.wid, self.nw, self.persist, _ss) = self.args[:14]
        ds = holder[0] if isinstance(holder, list) else holder
        self.dataset = copy.deepcopy(ds)
        self.collate = copy.deepcopy(self.collate)
        self.fetcher = None
        self.end = False
        self.alive = True

    def is_alive(self):
        return self.alive

    def join(self, timeout=None):
        self.alive = False

    def terminate(self):
        self.alive = False

    def kill(self):
        self.alive = False

    def step(self):
        """Process one request. Returns True if there was one."""
        if not self.alive or self.iq.empty():
            return False
        r = self.iq.get()
        if r is None:
            self.alive = False
            return True
        old = tw._worker_info
        tw._worker_info = tw.WorkerInfo(id=self.wid, num_workers=self.nw, seed=0, dataset=self.dataset)
        try:
            if isinstance(r, tw._ResumeIteration):
                self.dq.put((r, None))
                self.end = False
                self.fetcher = _DatasetKind.create_fetcher(self.kind, self.dataset, self.auto, self.collate,
                                                           self.drop_last)
                return True
            if self.done.is_set() or self.end:
                return True
            idx, index = r
            try:
                if self.fetcher is None:
                    if self.init_fn is not None:
                        self.init_fn(self.wid)
                    self.fetcher = _DatasetKind.create_fetcher(self.kind, self.dataset, self.auto, self.collate,
                                                               self.drop_last)
                data = self.fetcher.fetch(index)
            except Exception as e:
                if isinstance(e, StopIteration) and self.kind == _DatasetKind.Iterable:
                    data = tw._IterableDatasetStopIteration(self.wid)
                    self.end = True
                else:
                    data = ExceptionWrapper(where=f"in DataLoader worker process {self.wid}")
            self.dq.put((idx, data))
            return True
        finally:
            tw._worker_info = old


class SimContext(multiprocessing.context.BaseContext):
    _name = "sim"

    def __init__(self):
        self.procs = []
        self.first = True

    def Queue(self, *a, **k):
        # the first queue the iterator asks for is the result queue
        if self.first:
            self.first = False
            q = _ResultQ()
            q.ctx = self
            return q
        return _Q()

    def Event(self):
        return _Event()

    def Process(self, target=None, args=(), kwargs=None):
        p = _Proc(self, target, args, kwargs)
        self.procs.append(p)
        return p

    def _step(self):
        for p in self.procs:
            if p.step():
                return True
        return False


class FreshSim(SimContext):
    """One simulated pool per iterator: state is reset when a new result queue is requested after all processes of
    the previous iterator have ended."""

    def Queue(self, *a, **k):
        if self.procs and not any(p.alive for p in self.procs):
            self.procs = []
            self.first = True
        return super().Queue(*a, **k)

    def reset(self):
        self.procs = []
        self.first = True


def context(ctx):
    """multiprocessing_context argument for a DataLoader under exploration (None = real processes)."""
    return FreshSim() if ctx.symbolic else None
