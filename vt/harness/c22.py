"""Failing user functions cost exactly their samples, are reported once, and system errors are never swallowed."""

import contextlib
import copy
import io

from megatron.energon import CrudeWebdataset
from megatron.energon.epathlib import EPath
from megatron.energon.errors import FatalSampleError
from megatron.energon.flavors.webdataset.joined_webdataset import JoinedWebdatasetFactory
from megatron.energon.task_encoder.base import TaskEncoder, stateless
from megatron.energon.task_encoder.cooking import Cooker, basic_sample_keys
from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.batch_dataset import BatchDataset
from megatron.energon.wrappers.group_batch_dataset import GroupBatchDataset
from megatron.energon.wrappers.iter_map_dataset import IterMapDataset
from megatron.energon.wrappers.map_dataset import MapDataset
from megatron.energon.wrappers.packing_dataset import PackingDataset
from megatron.energon.wrappers.skip import SkipSample

from vt import vfs
from vt.engine import HarnessError
from vt.env import END, VB, VS, ListSource, Sim, freeze, reset, same, show
from vt.harness.c03 import ASSUMPTIONS as BASE_ASSUMPTIONS
from vt.harness.c03 import add_dataset, simple
from vt.harness.c14 import joined

ASSUMPTIONS = BASE_ASSUMPTIONS + ["user functions are deterministic in their inputs, with arbitrary (symbolic) outcomes"]


class Custom(Exception):
    pass


class OfTheStorage(OSError):
    pass


ORDINARY = [ValueError, KeyError, AssertionError, RuntimeError, OfTheStorage, Custom, TypeError, IndexError, AttributeError,
            ZeroDivisionError, NotImplementedError]
SYSTEM = [SystemError, SyntaxError, ImportError, MemoryError, RecursionError, ReferenceError, NameError, UnboundLocalError,
          FatalSampleError, ModuleNotFoundError, StopAsyncIteration, StopIteration]
WRAP = ["map", "generator", "stream", "batch", "batch generator", "group key", "group batch", "select", "pack", "pack generator"]
MANY = {"batch", "batch generator", "group batch", "select", "pack", "pack generator"}  # functions of several samples


def key_of(x):
    return "+".join(s.uid for s in x) if isinstance(x, (list, tuple)) else x.uid


class User:
    """the user's function calls; `mode`: what the bad ones do"""

    def __init__(self, ctx, mode, exc=None, good=()):
        self.ctx, self.mode, self.exc, self.good = ctx, mode, exc, good
        self.raised = []
        self.out = []  # outputs of the pipeline so far
        self.at = None  # outputs before the first bad call
        self.handled = []

    def act(self, what, x, generator=False):
        """a call of `what` with x; True: nothing comes out of it (functions that cannot raise SkipSample)"""
        k = key_of(x)
        if k in self.good or not self.ctx.bool(f"bad.{what}.{k}"):
            return
        if self.at is None:
            self.at = len(self.out)
        if self.mode == "skip":
            raise SkipSample()
        e = self.exc(f"{what} of {k}")
        self.raised.append((e, k))
        raise e

    def handler(self, e, x):
        self.handled.append((e, key_of(x)))
        if self.mode == "handler":
            raise e


def wrapper(ctx, u, kind, nw, n, default):
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    src = ListSource(wc, "s", [n] * max(nw, 1))
    k = dict(worker_config=wc)
    if not default:
        k["error_handler"] = u.handler

    def one(s, tag=""):
        return VB(s.__key__, s.__restore_key__, None, None, s.value, s.uid + tag, wc.active_worker_sample_index)

    def fn(s):
        u.act(kind, s)
        return one(s)

    def gen(s):
        yield one(s, "#0")
        u.act(kind, s)
        yield one(s, "#1")

    def stream(it):
        for s in it:
            try:
                u.act(kind, s)
            except SkipSample:
                continue
            yield one(s)

    def batch(ss):
        u.act(kind, ss)
        return joined(ss, wc.active_worker_sample_index)

    def batch_gen(ss):
        yield joined(ss, wc.active_worker_sample_index)
        u.act(kind, ss)
        yield joined(ss, (wc.active_worker_sample_index, 1))

    def key(s):
        u.act(kind, s)
        return "AB"[int(s.uid[-1]) % 2], None

    if kind == "map":
        return MapDataset(src, fn, stateless_map_fn=True, **k)
    if kind == "generator":
        return MapDataset(src, gen, stateless_map_fn=True, **k)
    if kind == "stream":
        return IterMapDataset(src, stream, stateless_iter_fn=True, **k)
    if kind == "batch":
        return BatchDataset(src, 2, batch, batcher_stateless=True, **k)
    if kind == "batch generator":
        return BatchDataset(src, 2, batch_gen, batcher_stateless=True, **k)
    if kind == "group key":
        return GroupBatchDataset(src, 2, key, lambda ss: joined(ss, wc.active_worker_sample_index), batcher_stateless=True, **k)
    if kind == "group batch":
        return GroupBatchDataset(src, 2, lambda s: ("AB"[int(s.uid[-1]) % 2], None), batch, batcher_stateless=True, **k)

    def select(ss):
        u.act("select", list(ss)) if kind == "select" else None
        return [[s] for s in ss][::-1] if kind != "pack generator" else [list(ss)]

    def fin(ss):
        u.act(kind, list(ss)) if kind == "pack" else None
        return joined(list(ss), wc.active_worker_sample_index)

    return PackingDataset(src, 2, select, batch_gen if kind == "pack generator" else fin, final_packer_stateless=True, **k)


def run(u, make, nw, w, epochs, limit, saved=None):
    """outputs of the pipeline, saved and restored after `saved` of them, and the exception that ended them"""
    reset()
    sim = Sim(make(u), w, nw)
    ends = 0
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for i in range(limit):
            try:
                if i == saved:
                    state, index = copy.deepcopy(sim.save()), sim.index
                    reset()
                    ds = make(u)
                    ds.restore_state(ds.merge_states([state if o == w else None for o in range(max(nw, 1))]))
                    sim = Sim(ds, w, nw, index)
                    u.ctx.reach("restored")
                ev = freeze(sim.step())
            except HarnessError:
                raise
            except Exception as e:
                return e
            u.out.append(ev)
            ends += ev is END
            if ends == epochs:
                return None
    return None


def caused_by(e, cause):
    seen = []
    while e is not None and e not in seen:
        if e is cause:
            return True
        seen.append(e)
        e = e.__cause__ or e.__context__
    return False


def compare(ctx, make, nw, w, epochs, mode, limit=60, good=(), default=False, kinds=None, view=None, saved=None):
    """`make(user)` builds the pipeline"""
    a = User(ctx, "skip", good=good)
    err = run(a, make, nw, w, epochs, limit, saved)
    ctx.check(err is None, "skip", lambda: f"skipping raised {err!r}")
    ctx.check(a.handled == [], "skip", lambda: f"skipped samples were given to the error handler: {a.handled}")
    kinds = kinds or (SYSTEM if mode == "system" else ORDINARY)
    ctx.assume(a.at is not None)
    exc = ctx.choose("exception", kinds)
    u = User(ctx, mode, exc, good=good)
    err = run(u, make, nw, w, epochs, limit, saved)
    what = f"{exc.__name__}: expected {show(a.out)}, got {show(u.out)}"
    if mode == "raise":
        ctx.check(err is None, "contained", lambda: f"{exc.__name__} came out as {err!r}")
        sa, su = (a.out, u.out) if view is None else (view(a.out), view(u.out))
        ctx.check(len(sa) == len(su) and same(sa, su), "other samples", lambda: what)
        if not default:
            got = [(e, k) for e, k in u.handled]
            ctx.check(len(got) == len(u.raised) and all(x[0] is y[0] and x[1] == y[1] for x, y in zip(got, u.raised)), "reported",
                      lambda: f"raised {u.raised}, handled {got}")
    else:
        first = u.raised[0][0]
        ctx.check(err is not None, "swallowed", lambda: f"{exc.__name__} did not come out, {what}")
        ctx.check(len(u.raised) == 1, "goes on", lambda: f"{u.raised}")
        ctx.check(len(u.out) == a.at and same(a.out[:a.at], u.out), "before", lambda: what)
        ctx.check(caused_by(err, first), "cause", lambda: f"{err!r} is not caused by {first!r}")
        if mode == "system":
            ctx.check(isinstance(err, FatalSampleError), "fatal", lambda: f"{err!r}")
            ctx.check(u.handled == [], "fatal", lambda: f"{exc.__name__} was given to the error handler")
        else:
            ctx.check(err is first and len(u.handled) == 1, "handler", lambda: f"{err!r}, handled {u.handled}")
    ctx.reach(mode)


def content_only(evs):
    return [e if e is END else (e.__key__, e.uid, e.value) for e in evs]


def h_wrap(ctx, kind, nw, w, n, epochs, mode, default=False, saved=None):
    kinds = None
    if mode == "system" and ("generator" in kind or kind == "stream"):
        kinds = [e for e in SYSTEM if not issubclass(e, (StopIteration, StopAsyncIteration))]  # a RuntimeError in a generator
    compare(ctx, lambda u: wrapper(ctx, u, kind, nw, n, default), nw, w, epochs, mode, default=default, kinds=kinds,
            view=content_only if kind == "stream" else None, saved=saved and ctx.choose("saved after", saved))


class Broken(ListSource):
    """fails to give the sample `at` of the first epoch"""

    def __init__(self, *a, at, exc):
        super().__init__(*a)
        self.at, self.exc, self.error = at, exc, None

    def sample(self, w, e, i):
        if (e, i) == (0, self.at) and self.error is None:
            self.error = self.exc("from below")
            raise self.error
        return super().sample(w, e, i)


def h_below(ctx, kind, n):
    """an error of the data set underneath is not handled, and does not look like the end of the epoch"""
    at = ctx.pick("at", 0, n - 1)
    exc = ctx.choose("exception", [ValueError, Custom, OfTheStorage, FatalSampleError, MemoryError])
    u = User(ctx, "raise", good=[f"s.w0.e{e}.i{i}" for e in range(2) for i in range(n)])
    u.act = lambda *a, **k: None
    global ListSource
    made = []

    def src(*a):
        made.append(Broken(*a, at=at, exc=exc))
        return made[-1]

    old, ListSource = ListSource, src
    try:
        ds = wrapper(ctx, u, kind, 0, n, False)
    finally:
        ListSource = old
    err = run(u, lambda u: ds, 0, 0, 1, 20)
    ctx.check(err is not None, "swallowed", lambda: f"{exc.__name__} of the inner data set did not come out: {show(u.out)}")
    ctx.check(caused_by(err, made[0].error), "cause", lambda: f"{err!r}")
    ctx.check(u.handled == [], "reported", lambda: f"{u.handled}")
    uids = "+".join(e.uid for e in u.out)
    ctx.check(f".i{at}" not in uids, "before", lambda: show(u.out))
    ctx.reach("below")


# ------------------------------------------------------------------------- task encoder pipelines


def encoder(u, hooks, has_batch, group, pack):
    def act(what, x):
        if what in hooks:
            u.act(what, x)

    def cook(s):
        v = VS(**basic_sample_keys(s), value=s["p0"], uid=s["__key__"].split("/", 1)[-1])
        act("cook", v)
        return v

    class Enc(TaskEncoder):
        cookers = [Cooker(cook)]

        @stateless
        def encode_sample(self, s):
            act("encode_sample", s)
            return VB(s.__key__, s.__restore_key__, None, None, s.value, s.uid, self.current_sample_index)

        if pack:
            def select_samples_to_pack(self, ss):
                act("select", list(ss))
                return [[s] for s in ss]

            @stateless
            def pack_selected_samples(self, ss):
                act("pack", list(ss))
                return joined(list(ss), self.current_sample_index)

        if group:
            @stateless
            def batch_group_criterion(self, s):
                act("group", s)
                return "AB"[int(s.uid[-1]) % 2], None

        if has_batch:
            @stateless
            def batch(self, ss):
                act("batch", ss)
                return joined(ss, self.current_sample_index)

            @stateless
            def encode_batch(self, b):
                act("encode_batch", b)
                return VB(b.__key__, b.__restore_key__, None, None, b.value, "eb:" + b.uid, b.seen_index)

    return Enc()


def h_encoder(ctx, hooks, n, *, training, mode, batch=True, group=False, pack=False, limit=60, good=()):
    fs = vfs.new()
    vfs.patch()
    add_dataset(fs, "/vtfs/ds", {"s.tar": simple(n, prefix="a")}, symbolic=False)

    def make(u):
        wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
        with contextlib.redirect_stdout(io.StringIO()):
            f = CrudeWebdataset(EPath("/vtfs/ds"), split_part="train", training=training, worker_config=wc, auto_decode=False,
                                parallel_shard_iters=1)
            te = encoder(u, hooks, batch, group, pack)
            b = te.build_train_datasets if training else te.build_val_datasets
            k = dict(shuffle_buffer_size=None) if training else {}
            return b(datasets=[(f, 1.0)], worker_config=wc, batch_size=2 if batch else None,
                     packing_buffer_size=2 if pack else None, **k)

    compare(ctx, make, 0, 0, 1 if not training else 99, mode, limit=limit, default=True, good=good)


# ----------------------------------------------------------------------------------- reading


class Typed(CrudeWebdataset):
    user = None

    def load_sample(self, s):
        v = VS(s["__key__"], s["__restore_key__"], None, None, {k: x for k, x in s.items() if not k.startswith("__")}, s["__key__"])
        self.user.act("load", v)
        return v


def join(*ss):
    return joined(ss, None)


def h_load(ctx, n, njoin, mode):
    """loading a sample fails (default: the error comes out; with a handler: only that sample is left out)"""
    fs = vfs.new()
    vfs.patch()
    for d in range(njoin):
        add_dataset(fs, f"/vtfs/ds{d}", {"s.tar": simple(n, 1 + d, prefix="a")}, symbolic=False)

    def make(u, handler=True):
        wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
        kw = dict(handler=lambda e, key: u.handler(e, VS(None, None, None, None, None, key))) if handler else {}
        with contextlib.redirect_stdout(io.StringIO()):
            fs = [Typed(EPath(f"/vtfs/ds{d}"), split_part="train", training=False, worker_config=wc, auto_decode=False, **kw)
                  for d in range(njoin)]
            fs[-1].user = u
            for f in fs[:-1]:
                f.user = User(ctx, "skip", good=[f"s.tar/a{i:03d}" for i in range(n)])
            f = fs[0] if njoin == 1 else JoinedWebdatasetFactory(fs, training=False, worker_config=wc, joiner=join, **kw)
            return f.build()

    a = User(ctx, "skip")
    err = run(a, lambda u: make(a), 0, 0, 1, 20)
    ctx.check(err is None and a.handled == [], "skip", lambda: f"{err!r} {a.handled}")
    ctx.assume(a.at is not None)
    kinds = SYSTEM if mode == "system" else ORDINARY
    exc = ctx.choose("exception", [e for e in kinds if e is not StopIteration or njoin == 1])
    u = User(ctx, mode, exc)
    err = run(u, lambda u: make(u, mode != "default"), 0, 0, 1, 20)
    what = f"{exc.__name__}: expected {show(a.out)}, got {show(u.out)}"
    if mode == "raise":
        ctx.check(err is None, "contained", lambda: f"{err!r}")
        ctx.check(len(a.out) == len(u.out) and same(a.out, u.out), "other samples", lambda: what)
        want = [(e, ",".join([k] * njoin)) for e, k in u.raised]
        ctx.check(len(u.handled) == len(want) and all(x[0] is y[0] and x[1] == y[1] for x, y in zip(u.handled, want)), "reported",
                  lambda: f"raised {u.raised}, handled {u.handled}")
    else:
        ctx.check(err is not None and len(u.raised) == 1, "swallowed", lambda: what)
        ctx.check(len(u.out) == a.at and same(a.out[:a.at], u.out), "before", lambda: what)
        ctx.check(caused_by(err, u.raised[0][0]), "cause", lambda: f"{err!r}")
        ctx.check(u.handled == [], "reported", lambda: f"{u.handled}")
        if mode == "system":
            ctx.check(isinstance(err, FatalSampleError), "fatal", lambda: f"{err!r}")
    ctx.reach(mode)


class Unreadable(vfs.NoFaults):
    """from some point on reading fails"""

    def __init__(self, ctx, exc, most):
        self.ctx, self.exc, self.most, self.n, self.down = ctx, exc, most, 0, False

    def short_read(self, file, n):
        if not self.down and self.n < self.most:
            self.n += 1
            self.down = self.ctx.bool(f"fails at {self.n}")
        if self.down:
            raise self.exc("injected")
        return n


def h_read(ctx, n, par, training):
    """the storage fails for good at any read: the error comes out, after complete samples only"""
    fs = vfs.new()
    vfs.patch()
    add_dataset(fs, "/vtfs/ds", {"s.tar": simple(n, 2, prefix="a")}, symbolic=False)
    exc = ctx.choose("exception", [OSError, ConnectionResetError, TimeoutError])

    def make():
        wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
        with contextlib.redirect_stdout(io.StringIO()):
            f = Typed(EPath("/vtfs/ds"), split_part="train", training=training, worker_config=wc, auto_decode=False,
                      parallel_shard_iters=par)
            f.user = User(ctx, "skip", good=[f"s.tar/a{i:03d}" for i in range(n)])
            return f.build()

    a = User(ctx, "skip")
    run(a, lambda u: make(), 0, 0, 1, n + (0 if training else 1))
    f = vfs.FAULTS = Unreadable(ctx, exc, 5 * n + 3)
    u = User(ctx, "skip")
    err = run(u, lambda u: make(), 0, 0, 1, n + (0 if training else 1))
    vfs.FAULTS = None
    if f.down:
        got = [e for e in u.out if e is not END]
        want = [e for e in a.out if e is not END]
        if len(got) < n:
            ctx.check(err is not None, "swallowed", lambda: f"failed at read {f.n}, got {show(u.out)} and no error")
        ctx.check(same(want[:len(got)], got), "complete", lambda: f"expected {show(want)} got {show(got)}")
        ctx.reach("failed")
    else:
        ctx.check(err is None and len(a.out) == len(u.out) and same(a.out, u.out), "other samples", lambda: show(u.out))


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach, weight=3):
        out.append(dict(name=name, fn=fn, bounds=bounds, reach=reach, weight=weight))

    for kind in WRAP:
        for mode in ("raise", "system", "handler"):
            n = (3 if mode == "raise" else 4) if q else 4
            add(f"{kind} {mode}", lambda c, a=(kind, 0, 0, n, 1, mode): h_wrap(c, *a),
                f"{n} samples, any subset fails with any of {len(ORDINARY) if mode != 'system' else len(SYSTEM)} exceptions", (mode,))
        add(f"{kind} default handler", lambda c, kind=kind: h_wrap(c, kind, 2, 1, 2, 2, "raise", default=True),
            "2 samples, 2 epochs, worker 1 of 2", ("raise",))
        if kind != "stream":
            for mode in ("raise", "system", "handler"):
                add(f"{kind} restored {mode}", lambda c, a=(kind, 0, 0, 2 if q else 3, 2, mode): h_wrap(c, *a, saved=[1, 2, 3]),
                    "2 samples, 2 epochs, saved and restored after 1-3 outputs", (mode, "restored"))
        add(f"{kind} below", lambda c, kind=kind: h_below(c, kind, 3), "3 samples, any one fails underneath", ("below",))
    for mode in ("raise", "system"):
        for hooks, kw in ((["cook", "encode_sample"], {}), (["batch", "encode_batch"], {}), (["group", "batch"], dict(group=True)),
                          (["select", "pack"], dict(pack=True, batch=False)), (["pack", "batch"], dict(pack=True))):
            n = 3 if q else 4
            add(f"encoder {'+'.join(hooks)} {mode}",
                lambda c, hooks=hooks, n=n, mode=mode, kw=kw: h_encoder(c, hooks, n, training=False, mode=mode, **kw),
                f"{n} samples, any of {hooks} fails", (mode,))
        add(f"train encoder {mode}", lambda c, mode=mode: h_encoder(c, ["cook", "encode_sample"], 2, training=True, mode=mode, limit=3,
                                                                    good=["a000"], batch=False), "2 samples", (mode,))
    for mode in ("raise", "system", "default"):
        for nj in (1, 2):
            add(f"load {nj} {mode}", lambda c, nj=nj, mode=mode: h_load(c, 3, nj, mode), f"3 samples of {nj} data sets", (mode,))
    for par, training in ((1, False), (1, True), (2, True)):
        add(f"read par={par} {'train' if training else 'val'}", lambda c, a=(2 if q else 3, par, training): h_read(c, *a),
            "storage down from any read on", ("failed",))
    return out
