"""Grouped batching: which samples form which batch, for every grouping and every outcome; resume."""

from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.group_batch_dataset import GroupBatchDataset
from megatron.energon.wrappers.skip import SkipSample

from vt.env import END, ListSource, VB, draining, resume_law

ASSUMPTIONS = [
    "the inner dataset keeps the dataset contract (model ListSource: symbolic payloads, resumable at "
    "every point); the grouping function and the batcher are deterministic in their samples, with "
    "arbitrary (symbolic) outcomes",
]


class UserError(Exception):
    pass


def wc_for(nw):
    return WorkerConfig(rank=0, world_size=1, num_workers=nw)


def batch_of(batch, wc):
    return VB(__key__=",".join(s.__key__ for s in batch), __restore_key__=(), __subflavor__=None,
              __subflavors__=None, value=[s.value for s in batch],
              uid="+".join(s.uid for s in batch), seen_index=wc.active_worker_sample_index)


def make_ds(ctx, nw, n, fixed, sizes, drop_last, keys, outcomes, seen=None):
    wc = wc_for(nw)
    src = ListSource(wc, "s", [n] * max(nw, 1))

    def group(s):
        if seen is not None:
            i = wc.active_worker_sample_index
            ctx.check(seen.setdefault(s.uid, i) == i, "group function index",
                      lambda: f"{s.uid} grouped at index {seen[s.uid]} and, in another run, at {i}")
        k = ctx.choose(f"key.{s.uid}", keys)
        if k == "skip":
            raise SkipSample()
        if k == "raise":
            raise UserError()
        return k, (None if fixed else sizes[k])

    def fn(batch):
        o = ctx.choose("fn." + "+".join(s.uid for s in batch), outcomes)
        if o == "skip":
            raise SkipSample()
        if o == "raise":
            raise UserError()
        return batch_of(batch, wc)

    ds = GroupBatchDataset(src, fixed_batch_size=fixed, sample_group_key=group, batcher=fn,
                           batcher_stateless=True, drop_last=drop_last, worker_config=wc,
                           error_handler=lambda e, b: None)
    ds.vt_source = src
    return ds


def h_group(ctx, nw, n, epochs, keys, outcomes, endless, max_k=None):
    """endless: one long epoch, observed before its end (training); else whole epochs"""
    if not endless:
        n = ctx.pick("n", 1, n)
    by = ctx.choose("batch size", ["fixed 1", "fixed 2", "A=1 B=2", "A=2 B=3"])
    fixed = int(by[-1]) if by.startswith("fixed") else None
    sizes = None if fixed else {"A": int(by[2]), "B": int(by[-1])}
    drop_last = False if endless else ctx.choose("drop_last", [False, True])
    seen = {}

    def make():
        return make_ds(ctx, nw, n, fixed, sizes, drop_last, keys, outcomes, seen)

    def ref(w):
        src = ListSource(wc_for(nw), "s", [n] * max(nw, 1))
        evs = []
        calls = 0

        def flush(b):
            nonlocal calls
            o = ctx.choose("fn." + "+".join(s.uid for s in b), outcomes)
            if o == "ok":
                evs.append(VB(",".join(s.__key__ for s in b),
                              ("GroupBatchDataset", calls) + tuple(s.__restore_key__ for s in b),
                              None, None, [s.value for s in b], "+".join(s.uid for s in b),
                              calls * max(nw, 1) + w))
            calls += 1

        for e in range(epochs):
            groups = {}
            for i in range(n):
                s = src.sample(w, e, i)
                k = ctx.choose(f"key.{s.uid}", keys)
                if k in ("skip", "raise"):
                    continue
                g = groups.setdefault(k, [])
                g.append(s)
                if len(g) == (fixed or sizes[k]):
                    flush(list(g))
                    g.clear()
            if not drop_last:
                for g in groups.values():
                    if g:
                        flush(g)
            evs.append(END)
        return evs

    if endless:
        def full(w):
            return ref(w)
        resume_law(ctx, make, nw, epochs=1, ref=full, save_ok=lambda b, evs: not draining(b, evs))
    else:
        resume_law(ctx, make, nw, epochs=epochs, ref=ref,
                   save_ok=lambda b, evs: not draining(b, evs))


def h_drain(ctx):
    def make():
        return make_ds(ctx, 0, 2, 2, None, False, ["A", "B"], ["ok"])

    ctx.assume(ctx.choose("key.s.w0.e0.i0", ["A", "B"]) != ctx.choose("key.s.w0.e0.i1", ["A", "B"]))
    resume_law(ctx, make, 0, epochs=2, modes=("once",), restore_keys=False, save_ok=draining)


def instances(tier):
    q = tier == "quick"
    R = ("restored",)
    out = []
    for nw in (0, 2):
        n = (3 if q else 4) - (1 if nw and q else 0)
        out.append(dict(name=f"one epoch nw={nw}", reach=R, seconds=850, weight=5,
                        fn=lambda c, nw=nw, n=n: h_group(c, nw, n, 1, ["A", "B"], ["ok", "skip"], False),
                        bounds=f"{nw} workers, 1..{n} samples, 2 groups, batch sizes fixed 1..2 or per group "
                               "1..3, drop_last either, batcher ok/skip, every save point"))
        out.append(dict(name=f"two epochs nw={nw}", reach=R, seconds=850, weight=5,
                        fn=lambda c, nw=nw: h_group(c, nw, 2 if nw == 0 or not q else 1, 2, ["A", "B"],
                                                    ["ok", "raise"] if not q else ["ok"], False),
                        bounds=f"{nw} workers, 1..2 samples, 2 epochs, every save point"))
        out.append(dict(name=f"failures nw={nw}", reach=R, seconds=850, weight=5,
                        fn=lambda c, nw=nw: h_group(c, nw, (2 if q else 3) - (1 if nw else 0), 1, ["A", "B", "skip", "raise"],
                                                    ["ok", "skip", "raise"], False),
                        bounds=f"{nw} workers, 1..{2 if q else 3} samples, grouping and batcher ok/skip/raise"))
        N = (4 if q else 6) - (1 if nw else 0)
        out.append(dict(name=f"long nw={nw}", reach=R, seconds=850, weight=9,
                        fn=lambda c, nw=nw, N=N: h_group(c, nw, N, 1, ["A", "B"], ["ok"], True),
                        bounds=f"{nw} workers, {N} samples without end of epoch, every grouping in 2 groups"))
    out.append(dict(name="draining", fn=h_drain,
                    bounds="finite source of 2 samples in 2 groups, batch size 2, saved between the 2 last batches"))
    return out
