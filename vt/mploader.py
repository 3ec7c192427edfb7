"""Model of torch's multi-process data loading, in one process.

Replaced: the multi-process iterator of torch.utils.data.DataLoader (round-robin over the worker
processes, two outstanding requests per worker, in-order delivery, persistent workers), worker
processes (a deep copy of the dataset, own process-global state: class variables, random states,
worker info), `multiprocessing.Queue`, `threading.Thread` / `RLock` of the worker's command thread,
`time.perf_counter`.  How far workers are ahead when a command arrives, whether the command is
handled before the worker starts to iterate, and how time passes are symbolic.
"""

import copy
import gc
import itertools
import multiprocessing
import queue
import random
import sys
import threading
import time
import traceback

import numpy as np
import torch
import torch.multiprocessing
import torch.utils.data.dataloader as tdl

from megatron.energon.worker import WorkerConfig

from . import engine, env

_ORIG = {}
CUR = None  # the current World


class MainContext:
    """process-global state of one simulated process"""

    FIELDS = ("worker_id_offset", "_sample_index_stack", "active_worker_config",
              "_worker_override_global_rank")

    def __init__(self, wid=None, nw=0):
        self.cls = {f: getattr(WorkerConfig, f, None) for f in self.FIELDS}
        self.rng = (torch.get_rng_state(), np.random.get_state(), random.getstate())
        self.wid, self.nw = wid, nw

    def enter(self):
        self.prev = MainContext()
        self.prev_worker = env._worker
        for f, v in self.cls.items():
            setattr(WorkerConfig, f, v)
        torch.set_rng_state(self.rng[0])
        np.random.set_state(self.rng[1])
        random.setstate(self.rng[2])
        env._worker = None if self.wid is None else env.WInfo(self.wid, self.nw)

    def leave(self):
        self.cls = {f: getattr(WorkerConfig, f, None) for f in self.FIELDS}
        self.rng = (torch.get_rng_state(), np.random.get_state(), random.getstate())
        env._worker = self.prev_worker
        for f, v in self.prev.cls.items():
            setattr(WorkerConfig, f, v)
        torch.set_rng_state(self.prev.rng[0])
        np.random.set_state(self.prev.rng[1])
        random.setstate(self.prev.rng[2])


class FakeQueue:
    def __init__(self, *a, **k):
        self.items = []

    def __deepcopy__(self, memo):
        return self

    def put(self, x, *a, **k):
        self.items.append(x)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def get(self, block=True, timeout=None):
        if not self.items and CUR is not None and CUR.proc is None:
            CUR.pump()
        if self.items:
            return self.items.pop(0)
        if CUR is not None and CUR.proc is not None and (timeout is not None or not block):
            th = CUR.proc.thread_running
            if th is not None:
                raise _Stop()
        if timeout is not None or not block:
            raise queue.Empty()
        engine.cur().fail("deadlock", "waits forever on an empty queue")

    def get_nowait(self):
        return self.get(block=False)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class _Stop(BaseException):
    """suspends the (synchronously run) command thread"""


class FakeLock:
    """re-entrant lock; which simulated thread holds it"""

    def __init__(self):
        self.owner, self.count = None, 0

    def me(self):
        p = CUR.proc if CUR is not None else None
        return "cmd" if p is not None and p.thread_running is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        if self.count and self.owner != self.me():
            engine.cur().fail("deadlock", f"{self.me()} thread waits for a lock that {self.owner} keeps")
        self.owner = self.me()
        self.count += 1
        return True

    def release(self):
        if self.count == 0 or self.owner != self.me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return FakeLock()


class FakeThread:
    """the command thread: runs whenever the world pumps commands"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}

    def start(self):
        p = CUR.proc
        p.thread = self
        # commands that wait may be handled before the iteration goes on
        if p.pending() and CUR.early_command(p):
            p.run_commands()

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return True


class Proc:
    def __init__(self, world, collate, j, ds, nw, seed, init_fn):
        self.world, self.collate, self.j, self.nw = world, collate, j, nw
        self.ds = ds
        self.ctx = MainContext(j, nw)
        # a forked process starts with the class variables of its parent
        self.thread = None
        self.thread_running = None
        self.results = []  # produced, not delivered yet
        self.requests = 0
        self.ended = False
        self.gen = None
        self.inside(lambda: self._init(seed, init_fn))

    def _init(self, seed, init_fn):
        random.seed(seed + self.j)
        torch.manual_seed(seed + self.j)
        np.random.seed((seed + self.j) & 0xFFFFFFFF)
        if init_fn is not None:
            init_fn(self.j)
        self.gen = iter(self.ds)

    def inside(self, f):
        if self.world.proc is self:
            return f()
        prev = self.world.proc
        self.world.proc = self
        self.ctx.enter()
        try:
            return f()
        finally:
            self.ctx.leave()
            self.world.proc = prev

    def resume(self):
        self.ended = False
        self.requests = 0

        def f():
            self.gen = None
            self.gen = iter(self.ds)
        self.inside(f)

    def produce(self):
        """handles one outstanding request"""
        assert self.requests > 0 and not self.ended
        self.requests -= 1
        try:
                self.results.append(self.inside(lambda: self.collate(env.freeze(next(self.gen)))))
        except StopIteration:
            self.ended = True
            self.gen = None
            self.results.append(env.END)

    def queues(self):
        return self.ds._cmd_queues

    def pending(self):
        return any(q.items for q in self.my_queues())

    def my_queues(self):
        return [v for v in self.world.cmd_queues if v.items]

    def run_commands(self):
        if self.thread is None:
            return
        th = self.thread

        def f():
            self.thread_running = th
            pe = traceback.print_exc
            traceback.print_exc = lambda *a, **k: None if isinstance(
                sys.exc_info()[1], (_Stop, engine._Steer)) else pe(*a, **k)
            try:
                th.target(*th.args, **th.kwargs)
            except _Stop:
                pass
            finally:
                self.thread_running = None
                traceback.print_exc = pe
        self.inside(f)


class World:
    """the processes of one data loader"""

    def __init__(self, tag):
        self.tag = tag
        self.procs = []
        self.proc = None
        self.cmd_queues = []
        self.early = False
        self.clock = {}
        self.max_ahead = 2
        self.timed = lambda j: True
        self.dead = False
        ALL.append(self)

    def close(self):
        """ends the processes (their generators run their clean-up code inside of the process)"""
        self.dead = True
        with self:
            for p in self.procs:
                g, p.gen = p.gen, None
                if g is not None:
                    try:
                        p.inside(g.close)
                    except Exception:
                        pass

    # -- schedule choices
    def early_command(self, p):
        return bool(engine.cur().bool(f"{self.tag}.early_command.w{p.j}"))

    def now(self):
        """monotone clock; between two readings either no time or more than any interval passes"""
        p = "main" if self.proc is None else self.proc.j
        t, n = self.clock.get(p, (0, 0))
        if self.dead:
            return t
        if self.proc is not None and self.timed(p):
            t = t + engine.vite(engine.cur().bool(f"{self.tag}.time.w{p}.{n}"), 1000, 0)
        self.clock[p] = (t, n + 1)
        return t

    def pump(self):
        """the workers go on with what they were asked to do, and handle waiting commands"""
        c = engine.cur()
        for p in self.procs:
            if p.ended:
                p.run_commands()
                continue
            if p.thread is None:
                # the process has not begun to iterate: the command waits for it
                if p.requests > 0:
                    p.produce()
            else:
                k = c.pick(f"{self.tag}.ahead.w{p.j}.{len(p.results)}.{self.npump}", 0,
                           min(p.requests, self.max_ahead))
                for _ in range(k):
                    if not p.ended:
                        p.produce()
            p.run_commands()
        self.npump += 1

    npump = 0


class FakeMPIter:
    """torch's _MultiProcessingDataLoaderIter"""

    def __init__(self, loader):
        self.world = CUR_WORLDS[id(loader)]
        self.loader = loader
        self.nw = loader.num_workers
        self.prefetch = loader.prefetch_factor
        seed = 12345
        with self.world:
            self.world.procs = [
                Proc(self.world, loader.collate_fn, j, copy.deepcopy(loader.dataset), self.nw, seed,
                     loader.worker_init_fn)
                for j in range(self.nw)]
        self._reset(loader, first_iter=True)

    def __iter__(self):
        return self

    def _reset(self, loader, first_iter=False):
        with self.world:
            if not first_iter:
                for p in self.world.procs:
                    p.resume()
            self.send = self.rcvd = 0
            self.task = {}
            self.status = [True] * self.nw
            self.cycle = itertools.cycle(range(self.nw))
            for _ in range(self.prefetch * self.nw):
                self._put()

    def _put(self):
        for _ in range(self.nw):
            w = next(self.cycle)
            if self.status[w]:
                break
        else:
            return
        self.task[self.send] = w
        self.send += 1
        self.world.procs[w].requests += 1

    def __next__(self):
        with self.world:
            while True:
                while self.rcvd < self.send:
                    w = self.task[self.rcvd]
                    if self.status[w]:
                        break
                    del self.task[self.rcvd]
                    self.rcvd += 1
                else:
                    raise StopIteration
                p = self.world.procs[w]
                if not p.results:
                    p.produce()
                r = p.results.pop(0)
                if r is env.END:
                    self.status[w] = False
                    self._put()
                    continue
                del self.task[self.rcvd]
                self.rcvd += 1
                self._put()
                return r


def _world_enter(self):
    global CUR
    self._prev = CUR
    CUR = self
    return self


def _world_exit(self, *a):
    global CUR
    CUR = self._prev


World.__enter__ = _world_enter
World.__exit__ = _world_exit

CUR_WORLDS = {}
ALL = []


def cleanup():
    for w in ALL:
        w.close()
    ALL.clear()
    CUR_WORLDS.clear()


def patch():
    if _ORIG:
        return
    _ORIG.update(it=tdl._MultiProcessingDataLoaderIter, q=multiprocessing.Queue,
                 tq=torch.multiprocessing.Queue, th=threading.Thread, rl=threading.RLock,
                 pc=time.perf_counter, gc=gc.collect, go=gc.get_objects)
    tdl._MultiProcessingDataLoaderIter = FakeMPIter
    multiprocessing.Queue = lambda *a, **k: FakeQueue()
    torch.multiprocessing.Queue = lambda *a, **k: FakeQueue()

    def thread(*a, **k):
        return FakeThread(*a, **k) if CUR is not None and CUR.proc is not None else _ORIG["th"](*a, **k)

    def rlock(*a, **k):
        return FakeLock() if CUR is not None else _ORIG["rl"](*a, **k)

    def clock():
        return CUR.now() if CUR is not None else _ORIG["pc"]()

    threading.Thread = thread
    threading.RLock = rlock
    time.perf_counter = clock
    gc.collect = lambda *a: 0
    gc.get_objects = lambda *a, **k: []


class LoaderSim:
    """a SavableDataLoader in its world"""

    def __init__(self, make, tag, **kw):
        from megatron.energon.savable_loader import SavableDataLoader

        patch()
        self.world = World(tag)
        with self.world:
            self.loader = SavableDataLoader(make(), **kw)
        self.world.cmd_queues = list(self.loader.cmd_queues)
        CUR_WORLDS[id(self.loader)] = self.world
        self.it = None

    def step(self):
        with self.world:
            if self.it is None:
                self.it = iter(self.loader)
            try:
                return env.freeze(next(self.it))
            except StopIteration:
                self.it = None
                return env.END

    def save(self):
        with self.world:
            return self.loader.save_state_rank()

    def restore(self, state):
        with self.world:
            self.loader.restore_state_rank(state)

    def restore_sample(self, key):
        with self.world:
            return env.freeze(self.loader.restore_sample(key))
