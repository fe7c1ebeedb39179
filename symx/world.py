"""The world around litdata, as seen by the harnesses: scratch datasets, process environment, JSON with
symbolic integers, stubbed sleeps.  Everything here sits at library boundaries (json, os.environ, torch's
worker info, time.sleep), never on litdata's own functions."""
import contextlib
import copy
import json
import os
import shutil
import sys
import tempfile
import time

from symx import core
from symx.core import SymInt, is_sym

_SCRATCH_ROOT = None


def scratch_root():
    global _SCRATCH_ROOT
    if _SCRATCH_ROOT is None or _SCRATCH_ROOT[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        d = tempfile.mkdtemp(prefix="symx-", dir=base)
        _SCRATCH_ROOT = (os.getpid(), d)
        import atexit

        atexit.register(shutil.rmtree, d, True)
    return _SCRATCH_ROOT[1]


_real_mkdtemp = tempfile.mkdtemp


@contextlib.contextmanager
def scratch():
    d = _real_mkdtemp(prefix="w-", dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ sleeps are no-ops
_real_sleep = time.sleep
_sleep_on = [False]


on_sleep = [None]


def fake_sleep(s=0):
    if _sleep_on[0]:
        _real_sleep(s)
    elif on_sleep[0] is not None:
        on_sleep[0](s)


def install():
    """Imports litdata (through the instrumenting importer unless this is a replay) and neutralises sleeping and
    the version check's network access."""
    import threading

    threading.excepthook = lambda args: None  # litdata's real background threads outlive the scratch folders
    if "litdata" not in sys.modules and os.environ.get("SYMX_PLAIN") != "1":
        from symx import instrument

        instrument.install()
    import litdata  # noqa: F401
    import pkgutil, importlib

    for m in pkgutil.walk_packages(litdata.__path__, "litdata."):
        if m.name != "litdata.__main__":
            importlib.import_module(m.name)
    for name, m in list(sys.modules.items()):
        if name.startswith("litdata") and m is not None and os.environ.get("SYMX_PLAIN") != "1":
            for c in list(vars(m).values()):
                if isinstance(c, type) and c.__module__ == name and "__len__" in vars(c) and not hasattr(c, "__bool__"):
                    # what truth testing does by itself, without forcing the length to a machine integer
                    c.__bool__ = lambda self: bool(type(self).__len__(self) != 0)
    import logging

    logging.disable(logging.CRITICAL)
    assert litdata.__file__.startswith(os.environ.get("SYMX_REPO", "/repo") + "/src/"), litdata.__file__
    time.sleep = fake_sleep
    for name, m in list(sys.modules.items()):
        if name.startswith("litdata") and m is not None:
            for k, v in list(vars(m).items()):
                if v is _real_sleep:
                    setattr(m, k, fake_sleep)
    import requests

    def no_net(*a, **k):
        raise requests.exceptions.ConnectionError("no network in the harness")

    requests.get = no_net


# ------------------------------------------------------------------ JSON with symbolic ints
_SENT_BASE = 7_700_000_000_000_000
_orig = {}
_sent = {}


def sentinel(v):
    """Integer standing for a symbolic value inside a JSON file."""
    if not is_sym(v):
        return v
    k = _SENT_BASE + len(_sent)
    _sent[k] = v
    return k


def _walk_in(o):
    if type(o) is int:
        return _sent.get(o, o) if o >= _SENT_BASE else o
    if type(o) is list:
        return [_walk_in(x) for x in o]
    if type(o) is dict:
        return {k: _walk_in(v) for k, v in o.items()}
    return o


def _walk_out(o):
    if is_sym(o):
        return sentinel(o)
    t = type(o)
    if t in (list, tuple):
        return [_walk_out(x) for x in o]
    if t is dict or (isinstance(o, dict)):
        return {k: _walk_out(v) for k, v in o.items()}
    return o


@contextlib.contextmanager
def symbolic_json():
    ol, ols, od, ods = json.load, json.loads, json.dump, json.dumps
    _sent.clear()
    json.load = lambda *a, **k: _walk_in(ol(*a, **k))
    json.loads = lambda *a, **k: _walk_in(ols(*a, **k))
    json.dump = lambda o, *a, **k: od(_walk_out(o), *a, **k)
    json.dumps = lambda o, *a, **k: ods(_walk_out(o), *a, **k)
    try:
        yield
    finally:
        json.load, json.loads, json.dump, json.dumps = ol, ols, od, ods
        _sent.clear()


# ------------------------------------------------------------------ process environment
@contextlib.contextmanager
def env(world_size=1, rank=0, nodes=1, worker=None, num_workers=None, extra=None):
    """One training process (and optionally one data-loading worker of it)."""
    import torch.utils.data._utils.worker as w

    keys = {"WORLD_SIZE": str(int(world_size)), "GLOBAL_RANK": str(int(rank)), "NNODES": str(int(nodes))}
    keys.update(extra or {})
    old = {k: os.environ.get(k) for k in keys}
    os.environ.update(keys)
    oi = w._worker_info
    if worker is not None:
        w._worker_info = w.WorkerInfo(id=int(worker), num_workers=int(num_workers), seed=0, dataset=None)
    else:
        w._worker_info = None
    try:
        yield
    finally:
        w._worker_info = oi
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


# ------------------------------------------------------------------ datasets
STRIDE = 100000


def value_of(chunk, j):
    """The sample stored at position j of chunk: unique over the dataset."""
    return chunk * STRIDE + j


_template = None


def _index_template():
    """index.json contents as the real writer produces them (integers as samples)."""
    global _template
    if _template is None:
        from litdata.streaming import Cache

        d = _real_mkdtemp(prefix="tpl-", dir=scratch_root())
        c = Cache(d, chunk_size=4)
        for j in range(2):
            c[j] = value_of(0, j)
        c.done()
        c.merge()
        _template = json.load(open(os.path.join(d, "index.json")))
        shutil.rmtree(d, ignore_errors=True)
    return copy.deepcopy(_template)


def make_dataset(ctx, path, sizes, compression=None, offset=0):
    """Symbolic mode: an index.json whose chunk sizes are symbolic (no chunk data).
    Concrete mode: a real dataset written by the real writer, sample (c, j) = value_of(c, j)."""
    os.makedirs(path, exist_ok=True)
    if ctx.symbolic:
        idx = _index_template()
        c0 = idx["chunks"][0]
        chunks = []
        for i, s in enumerate(sizes):
            e = dict(c0)
            e["filename"] = f"chunk-0-{i}.bin"
            e["chunk_size"] = sentinel(s)
            chunks.append(e)
        idx["chunks"] = chunks
        with open(os.path.join(path, "index.json"), "w") as f:
            json.dump(idx, f)
        return
    from litdata.streaming import Cache

    chunks, config = [], None
    for i, s in enumerate(sizes):
        d = os.path.join(path, f"tmp{i}")
        c = Cache(d, chunk_size=int(s) + 1, compression=compression)
        for j in range(int(s)):
            c[j] = offset + value_of(i, j)
        c.done()
        c.merge()
        idx = json.load(open(os.path.join(d, "index.json")))
        assert len(idx["chunks"]) == 1
        e = idx["chunks"][0]
        new = f"chunk-0-{i}.bin" if not compression else f"chunk-0-{i}.{compression}.bin"
        shutil.move(os.path.join(d, e["filename"]), os.path.join(path, new))
        e["filename"] = new
        chunks.append(e)
        config = idx["config"]
        shutil.rmtree(d)
    idx["chunks"] = chunks
    idx["config"] = config
    with open(os.path.join(path, "index.json"), "w") as f:
        json.dump(idx, f)


def item_loader(ctx, offset=0):
    """Symbolic mode: the public item-loader extension point, returning the identity of the sample that
    would be decoded.  Concrete mode: the default loader."""
    if not ctx.symbolic:
        return None
    return _ident_loader()(offset)


_ident_cls = None


def _ident_loader():
    global _ident_cls
    if _ident_cls is None:
        from litdata.streaming.item_loader import PyTreeLoader as Base

        class PyTreeLoader(Base):
            def __init__(self, offset=0):
                super().__init__()
                self._offset = offset

            def load_item_from_chunk(self, index, chunk_index, chunk_filepath, begin, filesize_bytes, *a, **k):
                i = int(os.path.basename(chunk_filepath).split("-")[2].split(".")[0])
                off = index - begin if index >= begin else index
                return self._offset + value_of(i, off)

        _ident_cls = PyTreeLoader
    return _ident_cls


@contextlib.contextmanager
def world(ctx):
    """Scratch directory + symbolic JSON when exploring."""
    with contextlib.ExitStack() as st:
        d = st.enter_context(scratch())
        if ctx.symbolic:
            st.enter_context(symbolic_json())
        # keep the default cache directory inside the scratch directory
        old = os.environ.get("HOME")
        yield d


def all_distinct(ctx, xs):
    import z3

    xs = list(xs)
    if len(xs) < 2:
        return True
    if any(is_sym(x) for x in xs):
        return core.SymBool(z3.Distinct([core._z(x) for x in xs]))
    return len(set(xs)) == len(xs)


def valid_sample(v, sizes):
    """v is the identity of an existing sample."""
    conds = []
    for i, s in enumerate(sizes):
        conds.append(core.sym_and(v >= value_of(i, 0), v < value_of(i, 0) + s))
    return core.sym_or(*conds)


@contextlib.contextmanager
def quiet():
    """Drops what the code under test prints (numbers turned into text inside are only printed)."""
    import io

    core.TEXT_IS_LOG = True
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        core.TEXT_IS_LOG = False


# ------------------------------------------------------------------ the reader's background thread, in step
class _Idle(core.PathAbort):
    """The background thread has nothing to do: control goes back to the reader."""


class _StepQueue:
    def __init__(self):
        self.q = []
        self.misses = 0

    def put(self, x, *a, **k):
        self.q.append(x)

    put_nowait = put

    def get(self, *a, **k):
        from queue import Empty

        if self.q:
            self.misses = 0
            return self.q.pop(0)
        self.misses += 1
        if self.misses > 2:
            self.misses = 0
            raise _Idle()
        raise Empty()

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)


@contextlib.contextmanager
def stepped_prepare_thread():
    """Runs the reader's PrepareChunksThread in the reader's own thread: whenever the reader sleeps, joins or is done, the
    thread's loop runs until it finds its queues empty three times.  Waiting makes the clock advance."""
    import threading
    import litdata.streaming.item_loader as il
    import litdata.streaming.reader as rd

    threads = []
    clock = [1000.0]
    saved = []

    def patch(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def pump(s=0):
        clock[0] += max(1.0, float(s) if isinstance(s, (int, float)) else 1.0)
        for t in list(threads):
            if getattr(t, "_symx_done", False):
                continue
            try:
                t.run()
                t._symx_done = True
            except _Idle:
                pass

    class Thread(rd.PrepareChunksThread):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            for n, v in list(vars(self).items()):
                if type(v).__module__ in ("queue", "multiprocessing.queues") and hasattr(v, "get") and hasattr(v, "put"):
                    setattr(self, n, _StepQueue())
            threads.append(self)

        def start(self):
            self._symx_started = True

        def join(self, timeout=None):
            pump()

        def is_alive(self):
            return not getattr(self, "_symx_done", False)

    try:
        patch(rd, "PrepareChunksThread", Thread)
        for m in (il, rd):
            if getattr(m, "time", None) is time.time:
                patch(m, "time", lambda: clock[0])
        old = on_sleep[0]
        on_sleep[0] = pump
        yield pump
    finally:
        on_sleep[0] = old
        for o, n, v in reversed(saved):
            setattr(o, n, v)
