"""Every sample of a whole task encoder pipeline is rebuilt from its restore key."""

import contextlib
import io

from vt.env import END, Sim, check_restore_keys, freeze, reset
from vt.harness.c14 import ASSUMPTIONS, pipeline, setup  # noqa: F401


def h_keys(ctx, sizes, nw, *, n, **k):
    setup(sizes)
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    with contextlib.redirect_stdout(io.StringIO()):
        reset()
        sim = Sim(pipeline(ctx, sizes, nw, **k), w, nw)
        U = [freeze(sim.step()) for _ in range(n)]

        def make():
            ds = pipeline(ctx, sizes, nw, **k)
            ctx.check(ds.can_restore_sample(), "restorable", lambda: "all user functions are stateless, but samples "
                                                                   "cannot be restored")
            return ds

        check_restore_keys(ctx, make, w, nw, U)
    ctx.reach("sample" if any(e is not END for e in U) else "none")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, sizes, nw, n, weight=3, seconds=700, reach=("sample",), **kw):
        n = n + 1 if q else n + 2
        out.append(dict(name=name, fn=lambda c: h_keys(c, sizes, nw, n=n, **kw), reach=reach,
                        bounds=f"data sets of {sizes} samples, {nw} workers, {n} outputs, {kw}", weight=weight,
                        seconds=seconds))

    T = dict(training=True)
    V = dict(training=False)
    add("blend, encode, batch", (2, 1), 0, 3, batch_size=2, virtual_epoch_length=2, shuffle_buffer_size=None,
        enc=dict(outcomes=("ok", "skip"), encode_batch=True, batch_index=False), **T)
    add("generator, batch", (2, 1), 0, 2, batch_size=2, shuffle_buffer_size=None, virtual_epoch_length=2,
        enc=dict(encode="gen", outcomes=(0, 1, 2), encode_batch=True, batch_index=False), **T)
    add("shuffle, generator", (3,), 0, 3, batch_size=None, shuffle_buffer_size=2, virtual_epoch_length=2,
        enc=dict(encode="gen", outcomes=(0, 1, 2), batch=False), **T)
    add("packing", (3,), 0, 4, packing_buffer_size=2, virtual_epoch_length=3, shuffle_buffer_size=None,
        enc=dict(batch=False, pack=True, outcomes=("ok", "skip")), **T)
    add("packing, batch", (2, 1), 0, 0, packing_buffer_size=2, batch_size=2, virtual_epoch_length=3,
        shuffle_buffer_size=None, enc=dict(pack=True, encode_batch=True, batch_index=False), **T)
    add("grouping", (3,), 0, 3, batch_size=2, virtual_epoch_length=2, shuffle_buffer_size=None,
        enc=dict(group=True, encode_batch=True, batch_index=False), **T)
    add("grouping, packing", (2,), 0, 2, batch_size=2, virtual_epoch_length=2, shuffle_buffer_size=None,
        packing_buffer_size=2, enc=dict(group=True, pack=True), **T)
    add("workers", (3, 2), 2, 2, batch_size=2, virtual_epoch_length=4, shuffle_buffer_size=2,
        enc=dict(encode="gen", outcomes=(1, 2), encode_batch=True, batch_index=False), **T)
    add("ranks", (4, 4), 2, 3, batch_size=2, virtual_epoch_length=4, shuffle_buffer_size=None, rank=(1, 2),
        enc=dict(encode_batch=True, batch_index=False), **T)
    add("val", (3, 2), 0, 4, batch_size=2, limit=2, enc=dict(outcomes=("ok", "skip"), encode_batch=True, batch_index=False), **V)
    add("val workers", (4, 3), 2, 4, batch_size=2, limit=4, enc=dict(encode="gen", outcomes=(1, 2)), **V)
    add("val packing", (3, 1), 0, 5, batch_size=None, packing_buffer_size=2, enc=dict(batch=False, pack=True), **V)
    return out
