"""An augmenting task encoder does what its inner task encoder does, except for what it overrides."""

import contextlib
import io

from megatron.energon.task_encoder.base import AugmentTaskEncoder, TaskEncoder, stateless

from vt.env import END, VB, VS, Sim, freeze, reset, same, show
from vt.harness.c14 import ASSUMPTIONS as BASE_ASSUMPTIONS
from vt.harness.c14 import h_resume, pipeline, setup

ASSUMPTIONS = BASE_ASSUMPTIONS


def marked(x):
    """the same sample, marked"""
    if isinstance(x, VS):
        return VS(x.__key__ + "+", x.__restore_key__, x.__subflavor__, x.__subflavors__, x.value, x.uid)
    return VB(x.__key__ + "+", x.__restore_key__, x.__subflavor__, x.__subflavors__, x.value, x.uid, x.seen_index)


OVERRIDES = ("encode_sample", "batch", "encode_batch", "batch_group_criterion", "pack_selected_samples", "cook_crude_sample",
             "select_samples_to_pack")


def overriding(base, what):
    """a class with `what` overridden on top of base"""
    if what is None:
        return type("Over", (base,), {})

    if what == "batch_group_criterion":
        class Over(base):
            @stateless
            def batch_group_criterion(self, s):
                k, n = super().batch_group_criterion(s)
                return ("+", k), n
    elif what == "select_samples_to_pack":
        class Over(base):
            def select_samples_to_pack(self, samples):
                return super().select_samples_to_pack(samples)[::-1]
    else:
        def fn(self, s):
            return marked(getattr(super(Over, self), what)(s))

        fn.__name__ = what

        class Over(base):
            pass

        setattr(Over, what, stateless(fn))
    return Over


def outcome(make, nw, horizon, w):
    reset()
    try:
        ds = make()
    except Exception as e:
        return ("rejected", type(e).__name__)
    out = [ds.can_restore_sample()]
    sim = Sim(ds, w, nw)
    for _ in range(horizon):
        ev = sim.step()
        out.append("END" if ev is END else freeze(ev))
        if ev is END:
            break
    return out


def h_same(ctx, sizes, nw, horizon, what=None, w=0, **k):
    """the stream of Augment(encoder) is that of the encoder"""
    setup(sizes)

    def make(wrap):
        return lambda: pipeline(ctx, sizes, nw, wrap=wrap, **k)

    def reference(te):
        te.__class__ = overriding(type(te), what)
        return te

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        want = outcome(make(reference), nw, horizon, w)
        got = outcome(make(lambda te: overriding(AugmentTaskEncoder, what)(te)), nw, horizon, w)
        ctx.check(want[0] != "rejected", "configuration", lambda: f"{want}")
        ctx.check(got[0] == want[0], "restorable", lambda: f"{got[0]}, expected {want[0]}")
        ctx.check(len(got) == len(want), "length", lambda: f"{show(got[1:])}, expected {show(want[1:])}")
        for a, b in zip(want[1:], got[1:]):
            ctx.check(same(a, b), "stream", lambda: f"{show([b])}, expected {show([a])}")
    ctx.reach("done")


def h_twice(ctx, sizes, nw, horizon, **k):
    """augmenting an augmented encoder"""
    setup(sizes)

    def make(wrap):
        return lambda: pipeline(ctx, sizes, nw, wrap=wrap, **k)

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        want = outcome(make(lambda te: te), nw, horizon, 0)
        got = outcome(make(lambda te: AugmentTaskEncoder(AugmentTaskEncoder(te))), nw, horizon, 0)
        ctx.check(same(want, got), "stream", lambda: f"{got}, expected {want}")
    ctx.reach("done")


def h_reject(ctx, sizes, k):
    """what the inner encoder does not support is not supported"""
    setup(sizes)
    size = ctx.choose("batch size", [None, 2])
    pack = ctx.choose("packing", [None, 2])
    grp, bat, eb, pk = (bool(ctx.bool(n)) for n in ("groups", "batches", "encodes batches", "packs"))
    if grp and size is None:
        return ctx.reach("rejected")

    def make(wrap):
        return lambda: pipeline(ctx, sizes, 0, wrap=wrap, batch_size=size, packing_buffer_size=pack,
                                enc=dict(batch=bat, group=grp, encode_batch=eb, pack=pk), **k)

    with contextlib.redirect_stdout(io.StringIO()):
        want, got = [outcome(make(f), 0, 0, 0)[0] for f in (lambda te: te, AugmentTaskEncoder)]
    ctx.check(got == want, "rejected", lambda: f"{got}, expected {want}")
    ctx.reach("rejected" if want == "rejected" else "accepted")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("done",), weight=2, seconds=600):
        out.append(dict(name=name, fn=fn, reach=reach, bounds=bounds, weight=weight, seconds=seconds))

    T = dict(training=True, shuffle_buffer_size=None)
    V = dict(training=False)
    h = 3 if q else 5
    confs = [
        ("samples", (2,), h, dict(enc=dict(outcomes=("ok", "skip"), batch=False), **T), ("encode_sample", "cook_crude_sample")),
        ("generator", (2,), h, dict(enc=dict(encode="gen", outcomes=(1, 2), batch=False), **T), ("cook_crude_sample",)),
        ("cooked only", (2,), h, dict(enc=dict(encode=None, batch=False), **T), ("cook_crude_sample",)),
        ("batches", (3,), 3, dict(batch_size=2, enc=dict(encode_batch=True), **T), ("batch", "encode_batch")),
        ("groups", (4,), 6, dict(batch_size=2, enc=dict(group=True, encode_batch=True), **V),
         ("batch_group_criterion", "batch", "encode_batch")),
        ("packing", (3,), 6, dict(packing_buffer_size=2, enc=dict(batch=False, pack=True), **V),
         ("pack_selected_samples", "select_samples_to_pack")),
        ("packing, batches", (4,), 5, dict(packing_buffer_size=2, batch_size=2, enc=dict(pack=True, encode_batch=True), **V),
         ("pack_selected_samples", "batch")),
        ("two data sets", (2, 1), h, dict(batch_size=2, virtual_epoch_length=2, enc=dict(), **T), ()),
    ]
    for name, sizes, hor, k, over in confs:
        for what in (None,) + over:
            add(f"{name}, {what or 'nothing'} overridden",
                lambda c, s=sizes, hor=hor, k=k, what=what: h_same(c, s, 0, hor, what, **k),
                f"data sets of {sizes} samples, {hor} outputs, any outcomes")
    add("workers", lambda c: h_same(c, (4,), 2, 3, None, 1, batch_size=2, enc=dict(group=True), **V), "4 samples, 2 workers")
    add("twice", lambda c: h_twice(c, (3,), 0, 5, batch_size=2, enc=dict(group=True, encode_batch=True), **V), "3 samples")
    add("rejected", lambda c: h_reject(c, (2,), V), "any batch size, packing and methods", reach=("rejected", "accepted"))
    kw = dict(wrap=AugmentTaskEncoder, modes=("once", "others"))
    for name, sizes, conf in (
            ("samples", (2,), dict(training=True, shuffle_buffer_size=None, horizon=3, virtual_epoch_length=2,
                                   enc=dict(outcomes=("ok", "skip"), batch=False))),
            ("batches", (3,), dict(training=True, shuffle_buffer_size=None, horizon=3, virtual_epoch_length=2, batch_size=2,
                                   enc=dict(group=True, encode_batch=True)))):
        add(f"resume {name}", lambda c, s=sizes, conf=conf: h_resume(c, s, 0, **conf, **kw), f"data sets of {sizes} samples, every save point",
            reach=("restored",))
    return out
