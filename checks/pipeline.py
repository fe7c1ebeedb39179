"""optimize() and map() in one process: every process of a run is a coroutine that runs until it waits for a queue, the
operating system's destructive calls stay below the scratch directory, and completed effects on the destination are
events at which a run may be killed."""
import contextlib
import copy
import os
import shutil
import tempfile
import threading
import types
from queue import Empty

from symx import core, world
from symx.core import is_sym

world.install()

import litdata.processing.data_processor as dp  # noqa: E402
import litdata.processing.functions as fns  # noqa: E402
import litdata.streaming.resolver as m_res  # noqa: E402
import litdata.streaming.writer as m_writer  # noqa: E402

from checks import stores  # noqa: E402


class Killed(BaseException):
    """The machine is gone: nothing else runs."""


class Hang(Exception):
    pass


class Machine:
    def __init__(self):
        self.procs, self.current, self.dead = [], None, False
        self.on_put = None
        self.error = None

    # -------------------------------------------------------------- coroutines
    def resume(self, p):
        """Runs p until it waits."""
        if p.done or not p.started or p.running:
            return False
        p.running = True
        before, prev = p.ticks, self.current
        keys = ("DATA_OPTIMIZER_GLOBAL_RANK", "DATA_OPTIMIZER_NUM_WORKERS")
        mine = {k: os.environ.get(k) for k in keys}
        self._env(p.env)
        self.current = p
        p.go.release()
        p.back.acquire()
        self.current, p.running = prev, False
        p.env = {k: os.environ.get(k) for k in keys}
        self._env(mine)
        if self.error is not None:
            if prev is not None:
                raise Killed()
            e, self.error = self.error, None
            self.stop()
            raise e
        return p.ticks != before

    @staticmethod
    def _env(d):
        for k, v in d.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def wait(self):
        """The current coroutine waits; returns once it is resumed."""
        p = self.current
        p.back.release()
        p.go.acquire()
        if self.dead:
            raise Killed()

    def others(self):
        """One round over all the other processes."""
        moved = False
        for p in list(self.procs):
            if not p.running:
                moved = self.resume(p) or moved
        return moved

    def stop(self):
        self.dead = True
        for p in self.procs:
            if p.started and not p.done:
                p.go.release()
                p.thread.join(5)

    def tick(self):
        if self.current is not None:
            self.current.ticks += 1


M = [None]


class Proc:
    """multiprocessing.Process."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.m = M[0]
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.started, self.done, self.ticks, self.exitcode = False, False, 0, None
        self.running = False
        self.pid, self.name, self.daemon = 1, name, daemon
        self.env = {}
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)

    def __deepcopy__(self, memo):
        return self

    def start(self):
        # a new process has its own copy of everything but the queues
        self.args, self.kwargs = copy.deepcopy((self.args, self.kwargs), {})
        keys = ("DATA_OPTIMIZER_GLOBAL_RANK", "DATA_OPTIMIZER_NUM_WORKERS")
        self.env = {k: os.environ.get(k) for k in keys}
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.started = True
        self.m.procs.append(self)
        self.thread.start()

    def run(self):
        self.target(*self.args, **self.kwargs)

    def _main(self):
        self.go.acquire()
        try:
            if not self.m.dead:
                self.run()
                self.exitcode = 0
        except Killed as e:
            if not self.m.dead:
                self.m.error, self.m.dead = e, True
        except core.PathAbort as e:
            self.m.error, self.m.dead = e, True
        except Exception:
            import traceback

            if os.environ.get("PIPE_V"):
                os.write(2, traceback.format_exc().encode())
            self.exitcode = 1
        except BaseException as e:
            self.m.error, self.m.dead = e, True
        self.done = True
        self.ticks += 1
        self.back.release()

    def join(self, timeout=None):
        idle = 0
        while not self.done and self.started:
            if self.m.current is not None:
                if timeout is not None:
                    return
                self.m.wait()
            else:
                idle = 0 if self.m.others() else idle + 1
                if idle > 4:
                    if timeout is not None:
                        return
                    raise core.Violated("a run never ends: it waits for a process forever")

    def is_alive(self):
        return self.started and not self.done

    def terminate(self):
        if self.started and not self.done:
            self.exitcode = -15

    kill = terminate

    def close(self):
        pass


class Q:
    """multiprocessing.Queue."""

    def __init__(self, *a, **k):
        self.m, self.items, self.idle = M[0], [], 0

    def __deepcopy__(self, memo):
        return self

    def put(self, x, *a, **k):
        self.items.append(copy.deepcopy(x))
        self.m.tick()
        if self.m.on_put is not None:
            self.m.on_put(self, x)

    put_nowait = put

    def get(self, block=True, timeout=None):
        me = self.m.current
        idle = 0
        while not self.items:
            if me is None:
                moved = self.m.others()
                if self.items:
                    break
                self.idle = 0 if moved else self.idle + 1
                if self.idle > 12:
                    raise core.Violated("a run never ends: it waits for its workers forever")
                if timeout is not None or not block:
                    raise Empty()
                continue
            if timeout is not None or not block:
                raise Empty()
            self.m.wait()
        self.m.tick()
        self.idle = 0
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class Worker(Proc):
    """A worker process: the real worker's code as a coroutine."""

    def __init__(self, *a, **k):
        Proc.__init__(self, args=a, kwargs=k)

    def run(self):
        self.w = dp.BaseWorker(*self.args, **self.kwargs)
        self.w.run()


class Kill:
    """A run is killed right before (or after) the effect number `at` on the destination."""

    def __init__(self, at=None, after=False):
        self.at, self.n, self.after, self.refuse = at, 0, after, None

    def event(self, do):
        m = M[0]
        if m is not None and m.dead:
            raise Killed()
        self.n += 1
        hit = self.at is not None and (self.at == self.n)
        if hit and not self.after:
            raise Killed()
        r = do()
        if hit:
            raise Killed()
        return r


def _inside(path, root):
    p = os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(path))))
    return p == root or p.startswith(root + "/")


class Guard:
    """Deleting and overwriting calls: recorded, and refused outside of the scratch directory."""

    def __init__(self, root, out=None, kill=None):
        self.root, self.removed, self.outside = os.path.realpath(root), [], []
        self.out, self.kill, self.busy, self.before = out, kill, False, None

    def wrap(self, f):
        def g(path, *a, **k):
            if isinstance(path, int) or k.get("dir_fd") is not None:
                return f(path, *a, **k)
            if not _inside(path, self.root) and not os.fspath(path).startswith(world.scratch_root()):
                self.outside.append(os.fspath(path))
                raise PermissionError(f"{path} is outside of the scratch directory")
            p = os.path.abspath(os.fspath(path))
            self.removed.append(p)
            if self.before is not None:
                self.before(p)
            if self.kill is not None and not self.busy and (p + "/").startswith(self.out):

                def do():
                    self.busy = True
                    try:
                        return f(path, *a, **k)
                    finally:
                        self.busy = False

                return self.kill.event(do)
            return f(path, *a, **k)

        return g


@contextlib.contextmanager
def machine(d, kill=None, store=None, workers=True):
    """The world of one run, below the directory d.  `kill`: see Kill; store: a stores.Store."""
    m = Machine()
    kill = kill or Kill()
    guard = Guard(world.scratch_root(), os.path.join(d, "out"), kill)
    saved = []

    def patch(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    cache, data = os.path.join(d, "run-cache"), os.path.join(d, "run-data")
    tmp = os.path.join(d, "run-tmp")
    for p in (cache, data, tmp):
        os.makedirs(p, exist_ok=True)
    env = {"DATA_OPTIMIZER_CACHE_FOLDER": cache, "DATA_OPTIMIZER_DATA_CACHE_FOLDER": data}
    olde = {k: os.environ.get(k) for k in (*env, "DATA_OPTIMIZER_GLOBAL_RANK", "DATA_OPTIMIZER_NUM_WORKERS", "DATA_OPTIMIZER_NUM_NODES", "DATA_OPTIMIZER_NODE_RANK")}
    os.environ.update(env)
    old_m = M[0]
    M[0] = m
    with contextlib.ExitStack() as st:
        try:
            for mod in (dp, fns):
                patch(mod, "_IS_IN_STUDIO", False)
                if hasattr(mod, "_TQDM_AVAILABLE"):
                    patch(mod, "_TQDM_AVAILABLE", False)
            patch(fns, "_check_version_and_prompt_upgrade", lambda *a, **k: None)
            patch(dp, "Process", Proc)
            patch(dp, "Queue", Q)
            patch(dp, "DataWorkerProcess", Worker)
            patch(dp, "multiprocessing", types.SimpleNamespace(set_start_method=lambda *a, **k: None))
            patch(dp, "signal", types.SimpleNamespace(signal=lambda *a, **k: None, SIGINT=2))
            patch(dp, "_wait_for_disk_usage_higher_than_threshold", lambda *a, **k: None)
            patch(tempfile, "tempdir", tmp)
            for n in ("remove", "unlink", "rmdir"):
                patch(os, n, guard.wrap(getattr(os, n)))
            patch(shutil, "rmtree", guard.wrap(shutil.rmtree))
            copy_, copyfile, replace, rename, move = shutil.copy, shutil.copyfile, os.replace, os.rename, shutil.move
            busy = [0]

            def effect(f):
                def g(src, dst, *a, **k):
                    # one effect, however many calls it takes
                    if busy[0] or not (os.path.abspath(os.fspath(dst)) + "/").startswith(os.path.join(d, "out/")):
                        return f(src, dst, *a, **k)

                    def do():
                        if kill.refuse is not None and kill.refuse(os.path.abspath(os.fspath(dst))):
                            raise OSError("the destination refuses")
                        busy[0] += 1
                        try:
                            return f(src, dst, *a, **k)
                        finally:
                            busy[0] -= 1

                    return kill.event(do)

                return g

            for o, n, f in ((shutil, "copy", copy_), (shutil, "copyfile", copyfile), (shutil, "move", move), (os, "replace", replace), (os, "rename", rename)):
                patch(o, n, effect(f))
            if store is not None:
                put, delete = store.put, store.delete
                store.put = lambda b, k, data: kill.event(lambda: put(b, k, data))
                store.delete = lambda b, k: kill.event(lambda: delete(b, k))
                st.callback(lambda: (setattr(store, "put", put), setattr(store, "delete", delete)))
                st.enter_context(stores.connected(store))
            st.enter_context(world.quiet())
            m.guard, m.kill = guard, kill
            yield m
        finally:
            m.stop()
            M[0] = old_m
            for o, n, v in reversed(saved):
                setattr(o, n, v)
            for k, v in olde.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v


def tree(d):
    """Contents of all the files below d."""
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.isfile(p):
                with open(p, "rb") as h:
                    out[os.path.relpath(p, d)] = h.read()
    return out


def read_dataset(files, make=None):
    """The values of the samples of a finished local dataset, read back by the real reader (from copies of its files)."""
    from litdata.streaming.cache import Cache
    from litdata.streaming.sampler import ChunkedIndex

    with world.scratch() as d:
        for n, b in files.items():
            if "/" not in n:
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b)
        cache = Cache(d, chunk_bytes=1, item_loader=make() if make else None)
        cache._reader._try_load_config()
        cfg = cache._reader.config
        out = []
        for c, (lo, hi) in enumerate(cfg.intervals and [(iv[0], iv[-1]) for iv in cfg.intervals]):
            for i in range(lo, hi):
                out.append(cache._reader.read(ChunkedIndex(index=i, chunk_index=c)))
        return out
