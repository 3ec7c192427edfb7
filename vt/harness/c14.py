"""Whole task encoder pipelines, from tar shards to encoded batches: the resume law."""

import contextlib
import io

from megatron.energon import CrudeWebdataset
from megatron.energon.epathlib import EPath
from megatron.energon.task_encoder.base import TaskEncoder, stateless
from megatron.energon.task_encoder.cooking import Cooker, basic_sample_keys
from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.skip import SkipSample

from vt import vfs
from vt.env import END, VB, VS, Sim, reset, resume_law
from vt.harness.c03 import ASSUMPTIONS as BASE_ASSUMPTIONS
from vt.harness.c03 import add_dataset, simple

ASSUMPTIONS = BASE_ASSUMPTIONS + ["user functions are deterministic in their inputs, with arbitrary (symbolic) outcomes"]


def joined(samples, index):
    return VB(__key__=",".join(s.__key__ for s in samples), __restore_key__=(), __subflavor__=None,
              __subflavors__=None, value=[s.value for s in samples], uid="+".join(s.uid for s in samples),
              seen_index=(index, [getattr(s, "seen_index", None) for s in samples]))


def cook(sample):
    return VS(**basic_sample_keys(sample), value=sample["p0"], uid=sample["__key__"].split("/", 1)[-1])


def task_encoder(ctx, *, encode="map", outcomes=("ok",), batch=True, group=False, pack=False, encode_batch=False,
                 batch_index=True):
    has_batch, has_eb = batch, encode_batch

    class Enc(TaskEncoder):
        cookers = [Cooker(cook)]

        if encode == "map":
            @stateless
            def encode_sample(self, s):
                # (a data set with nothing but skipped samples has no training epoch)
                o = ctx.choose(f"enc.{s.uid}", outcomes) if s.uid[1:] != "000" else "ok"
                if o == "skip":
                    raise SkipSample()
                return VB(s.__key__, s.__restore_key__, None, None, s.value, s.uid, self.current_sample_index)
        elif encode == "gen":
            @stateless
            def encode_sample(self, s):
                for j in range(ctx.choose(f"enc.{s.uid}", outcomes) if s.uid[1:] != "000" else max(outcomes)):
                    yield VB(s.__key__, s.__restore_key__, None, None, s.value, f"{s.uid}#{j}",
                             self.current_sample_index)

        if pack:
            def select_samples_to_pack(self, samples):
                u = "+".join(s.uid for s in samples)
                o = ctx.choose(f"pre.{u}", ["all", "each", "reverse"]) if len(samples) > 1 else "all"
                if o == "all":
                    return [samples]
                if o == "each":
                    return [[s] for s in samples]
                return [samples[::-1]]

            @stateless
            def pack_selected_samples(self, samples):
                return joined(samples, self.current_sample_index)

        if group:
            @stateless
            def batch_group_criterion(self, s):
                return ctx.choose(f"key.{s.uid}", ["A", "B"]), None

        if has_batch:
            @stateless
            def batch(self, samples):
                return joined(samples, self.current_sample_index)

        if has_eb:
            @stateless
            def encode_batch(self, b):
                return VB(b.__key__, b.__restore_key__, None, None, b.value, "eb:" + b.uid,
                          (self.current_sample_index, self.current_batch_index if batch_index else None, b.seen_index))

    return Enc()


def setup(sizes):
    fs = vfs.new()
    vfs.patch()
    for d, n in enumerate(sizes):
        add_dataset(fs, f"/vtfs/ds{d}", {"s.tar": simple(n, prefix=f"{'abc'[d]}", junk=False)}, symbolic=False)


def pipeline(ctx, sizes, nw, *, training, rank=(0, 1), batch_size=None, enc, log=0, shuffle_over=1, wrap=lambda te: te, **k):
    wc = WorkerConfig(rank=rank[0], world_size=rank[1], num_workers=nw, worker_log_level=log)
    with contextlib.redirect_stdout(io.StringIO()):
        fs = [(CrudeWebdataset(EPath(f"/vtfs/ds{d}"), split_part="train", training=training, worker_config=wc,
                               auto_decode=False, shuffle_over_epochs=shuffle_over, parallel_shard_iters=1), 1.0 + d)
              for d in range(len(sizes))]
        te = wrap(task_encoder(ctx, **enc))
        b = te.build_train_datasets if training else te.build_val_datasets
        return b(datasets=fs, worker_config=wc, batch_size=batch_size, **k)


def h_resume(ctx, sizes, nw, *, modes=("once", "twice", "others", "fresh", "used", "reset"), epochs=None, horizon=None, w=None,
             max_k=None, **k):
    setup(sizes)

    def make():
        ds = pipeline(ctx, sizes, nw, **k)
        ctx.check(ds.can_restore_sample(), "restorable", lambda: "all user functions are stateless, but samples "
                                                               "cannot be restored")
        return ds

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        resume_law(ctx, make, nw, epochs=epochs, horizon=horizon, modes=modes, restore_keys=False, w=w, max_k=max_k)


def h_stream(ctx, sizes, nw, *, training, enc, batch_size, drop_last=False, limit=None, epoch=None, total=6, **k):
    """the outputs of a pipeline are those of the pipeline that does not batch, limit or cut into epochs, cut accordingly"""
    setup(sizes)
    w = ctx.choose("worker", list(range(max(nw, 1))))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        reset()
        kw = dict(virtual_epoch_length=0, **k) if training else k
        plain = Sim(pipeline(ctx, sizes, nw, training=training, enc=dict(enc, batch=False), batch_size=None, **kw), w, nw)
        reset()
        kw = dict(virtual_epoch_length=epoch, **k) if training else dict(k, limit=limit)
        full = Sim(pipeline(ctx, sizes, nw, training=training, enc=enc, batch_size=batch_size, batch_drop_last=drop_last, **kw), w, nw)

        def one(sim, n=99):
            got = []
            while len(got) < n:
                e = sim.step()
                if e is END:
                    break
                got.append(e.uid)
            return got

        def share(n):
            return n // max(nw, 1) + (w < n % max(nw, 1))

        reset()
        if training:
            n = share(epoch)
            exp = one(plain, n * batch_size * (total // max(n, 1)))
            batches = ["+".join(exp[i:i + batch_size]) for i in range(0, len(exp), batch_size)]
            for _ in range(total // max(n, 1)):
                got = one(full)
                ctx.check(got == batches[:n], "stream", lambda: f"worker {w}: {got}, expected {batches[:n]}")
                del batches[:n]
        else:
            exp = one(plain)
            batches = ["+".join(exp[i:i + batch_size]) for i in range(0, len(exp), batch_size)]
            if drop_last and len(exp) % batch_size:
                batches.pop()
            for ep in range(3):
                got, want = one(full), batches[:limit and share(limit)]
                ctx.check(got == want, "stream", lambda: f"worker {w}, epoch {ep}: {got}, expected {want}")
    ctx.reach("streamed")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, sizes, nw, weight=3, seconds=700, reach=("restored",), fn=None, bounds=None, **kw):
        out.append(dict(name=name, fn=fn or (lambda c: h_resume(c, sizes, nw, **kw)), reach=reach,
                        bounds=bounds or f"data sets of {sizes} samples, {nw} workers, {kw}, every save point", weight=weight,
                        seconds=seconds))

    T = dict(training=True)
    V = dict(training=False)
    h = 0 if q else 2
    add("blend, encode, batch, epochize", (1, 1), 0, horizon=3 + h // 2, batch_size=2, virtual_epoch_length=2,
        enc=dict(encode_batch=True), shuffle_buffer_size=None, **T)
    add("skips", (3,), 0, horizon=4 + h, batch_size=2, virtual_epoch_length=2,
        enc=dict(outcomes=("ok", "skip")), shuffle_buffer_size=None, **T)
    add("shuffle buffer, generator, batch", (2,), 0, horizon=3 + h, batch_size=2, shuffle_buffer_size=2,
        enc=dict(encode="gen", outcomes=(1, 2)), modes=("once",), **T)
    add("packing", (3,), 0, horizon=3 + h, packing_buffer_size=2, virtual_epoch_length=3, shuffle_buffer_size=None,
        enc=dict(batch=False, pack=True), **T)
    add("packing, batch", (3,), 0, horizon=2 + h, packing_buffer_size=2, batch_size=2, virtual_epoch_length=3,
        shuffle_buffer_size=None, enc=dict(pack=True), modes=("once",), **T)
    add("grouping", (3,), 0, horizon=3 + h, batch_size=2, virtual_epoch_length=2, shuffle_buffer_size=None,
        enc=dict(group=True, encode_batch=True), **T)
    add("workers", (3, 2), 2, horizon=4 + h, batch_size=2, virtual_epoch_length=4, shuffle_buffer_size=None,
        enc=dict(encode="gen", outcomes=(1, 2)), modes=("once", "others", "fresh"), **T)
    add("ranks", (8, 4), 2, horizon=3 + h // 2, batch_size=2, virtual_epoch_length=4, shuffle_buffer_size=None, rank=(1, 2),
        enc=dict(outcomes=("ok",)), modes=("once", "others"), **T)
    add("logging", (2,), 0, horizon=4, batch_size=2, virtual_epoch_length=2, shuffle_buffer_size=None, log=3,
        enc=dict(), modes=("once",), **T)
    add("ranks, shuffle buffer", (8,), 2, horizon=2 + h // 2, batch_size=2, virtual_epoch_length=2,
        shuffle_buffer_size=2, rank=(1, 2), enc=dict(), modes=("once", "twice", "others"), **T)
    add("shuffled epochs", (2,), 0, horizon=3 + h // 2, batch_size=None, virtual_epoch_length=2, shuffle_buffer_size=2,
        shuffle_over=2, enc=dict(batch=False), modes=("once", "twice"), **T)
    add("val concat", (2, 1), 0, epochs=2, batch_size=2, enc=dict(encode_batch=True), **V)
    add("val skips", (3,), 0, epochs=2, batch_size=2, enc=dict(outcomes=("ok", "skip")), **V)
    add("val limit", (2, 1), 0, epochs=2, batch_size=2, limit=1, enc=dict(), **V)
    add("val limit 2", (5,), 0, epochs=3, batch_size=2, limit=2, batch_drop_last=True, enc=dict(), **V)
    add("val workers", (4, 3), 2, epochs=2, batch_size=2, limit=4, batch_drop_last=False, enc=dict(), **V)
    add("val drop last", (3, 2), 2, epochs=2, batch_size=2, batch_drop_last=True, enc=dict(encode_batch=True), **V)
    for n, (sizes, nw, kw) in {
        "val": ((3, 2), 0, dict(outcomes=("ok", "skip"))),
        "val limit": ((4, 3), 0, dict(outcomes=("ok",), limit=2)),
        "val limit workers": ((5, 4), 2, dict(outcomes=("ok", "skip"), limit=3)),
        "val drop last": ((3, 4), 2, dict(outcomes=("ok", "skip"), drop_last=True)),
        "val generator": ((2, 1), 0, dict(outcomes=(1, 2), encode="gen", limit=2)),
    }.items():
        e = dict(outcomes=kw.pop("outcomes"), encode=kw.pop("encode", "map"))
        add(f"stream {n}", None, None, fn=lambda c, sizes=sizes, nw=nw, kw=kw, e=e: h_stream(c, sizes, nw, training=False, enc=e, batch_size=2, **kw),
            reach=("streamed",), bounds=f"data sets of {sizes} samples, {nw} workers, {e}, {kw}, batches of 2, 3 epochs, any worker")
    for n, (sizes, nw, kw) in {
        "train": ((2,), 0, dict(outcomes=("ok", "skip"), epoch=2)),
        "train blend": ((1, 1), 0, dict(outcomes=("ok",), epoch=3, total=3)),
        "train workers": ((4,), 2, dict(outcomes=("ok",), epoch=3, total=4)),
        "train shuffle buffer": ((3,), 0, dict(outcomes=("ok",), epoch=1, total=2, shuffle_buffer_size=2)),
    }.items():
        e = dict(outcomes=kw.pop("outcomes"))
        kw.setdefault("shuffle_buffer_size", None)
        add(f"stream {n}", None, None, fn=lambda c, sizes=sizes, nw=nw, kw=kw, e=e: h_stream(c, sizes, nw, training=True, enc=e, batch_size=2, **kw),
            reach=("streamed",), bounds=f"data sets of {sizes} samples, {nw} workers, {e}, {kw}, batches of 2, any worker")
    return out
