"""Batching: which samples form which batch, for every outcome of the batcher; length; resume."""

from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.batch_dataset import BatchDataset
from megatron.energon.wrappers.skip import SkipSample

from vt import engine
from vt.env import END, ListSource, Sim, VB, freeze, in_worker, reset, resume_law

ASSUMPTIONS = [
    "the inner dataset keeps the dataset contract (model ListSource: symbolic payloads, resumable at "
    "every point, samples balanced over workers for the length law); the batcher is deterministic in "
    "its samples, with arbitrary (symbolic) outcomes ok / skip / raise / 0..2 outputs",
]


class UserError(Exception):
    pass


def wc_for(nw):
    return WorkerConfig(rank=0, world_size=1, num_workers=nw)


def batch_of(batch, tag, wc):
    return VB(__key__=",".join(s.__key__ for s in batch) + tag, __restore_key__=(),
              __subflavor__=None, __subflavors__=None, value=[s.value for s in batch],
              uid="+".join(s.uid for s in batch) + tag, seen_index=wc.active_worker_sample_index)


def groups(nw, n, bs, drop_last, w, e):
    src = ListSource(wc_for(nw), "s", [n] * max(nw, 1))
    ss = [src.sample(w, e, i) for i in range(n)]
    g = [ss[i:i + bs] for i in range(0, n, bs)]
    return [b for b in g if len(b) == bs or not drop_last]


def h_batch(ctx, nw, n, bs, epochs, outcomes, gen):
    n = ctx.pick("n", 1, n)
    bs = ctx.pick("batch_size", 1, bs)
    drop_last = ctx.choose("drop_last", [False, True])

    def out(batch):
        return ctx.choose("fn." + "+".join(s.uid for s in batch), outcomes)

    def make():
        wc = wc_for(nw)
        src = ListSource(wc, "s", [n] * max(nw, 1))

        def fn(batch):
            o = out(batch)
            if o == "skip":
                raise SkipSample()
            if o == "raise":
                raise UserError()
            return batch_of(batch, "", wc)

        def gfn(batch):
            cnt, end = out(batch)
            for j in range(cnt):
                yield batch_of(batch, f".{j}", wc)
            if end == "skip":
                raise SkipSample()
            if end == "raise":
                raise UserError()

        return BatchDataset(src, batch_size=bs, batcher=gfn if gen else fn, batcher_stateless=True,
                            drop_last=drop_last, worker_config=wc, error_handler=lambda e, b: None)

    def ref(w):
        evs = []
        calls = 0
        for e in range(epochs):
            for b in groups(nw, n, bs, drop_last, w, e):
                idx, calls = calls, calls + 1
                keys = tuple(s.__restore_key__ for s in b)
                u = "+".join(s.uid for s in b)
                k = ",".join(s.__key__ for s in b)
                v = [s.value for s in b]
                si = idx * max(nw, 1) + w
                o = out(b)
                if gen:
                    for j in range(o[0]):
                        evs.append(VB(k + f".{j}", ("BatchDataset", idx, j) + keys, None, None, v,
                                      u + f".{j}", si))
                elif o == "ok":
                    evs.append(VB(k, ("BatchDataset", idx) + keys, None, None, v, u, si))
            evs.append(END)
        return evs

    save_ok = None
    if gen:
        # a generator on the last partial batch of a finite source is the "draining" instance
        save_ok = lambda b, evs: not (b.ds.dataset._offset[b.wid] == 0 and evs and evs[-1] is not END)
    resume_law(ctx, make, nw, epochs=epochs, ref=ref, save_ok=save_ok)


def h_drain(ctx):
    def make():
        wc = wc_for(0)
        src = ListSource(wc, "s", [1])

        def gfn(batch):
            for j in range(2):
                yield batch_of(batch, f".{j}", wc)

        return BatchDataset(src, batch_size=2, batcher=gfn, batcher_stateless=True, worker_config=wc)

    resume_law(ctx, make, 0, epochs=2, modes=("once",), restore_keys=False,
               save_ok=lambda b, evs: b.ds.dataset._offset[b.wid] == 0 and bool(evs) and evs[-1] is not END)


def h_len(ctx, nw):
    """reported length == total number of batches of all workers in one epoch (balanced workers)"""
    reset()
    wc = wc_for(nw)
    total = ctx.int("total", 0, 10**6)
    bs = ctx.pick("batch_size", 1, 5)
    drop_last = ctx.choose("drop_last", [False, True])

    class Src(ListSource):
        def __vt_len__(self):
            return total

        def __len__(self):
            return int(total)

    ds = BatchDataset(Src(wc, "s", [0] * max(nw, 1)), batch_size=bs, batcher=lambda b: b,
                      drop_last=drop_last, worker_config=wc)
    got = ds.__len__()
    exp = 0
    k = max(nw, 1)
    for w in range(k):
        nwk = total // k + engine.vite(total % k > w, 1, 0)
        exp = exp + (nwk // bs if drop_last else (nwk + bs - 1) // bs)
    ctx.reach("len")
    ctx.check(got == exp, "length", lambda: f"total={int(total)} bs={bs} drop_last={drop_last}: "
              f"len {int(got)}, batches {int(exp)}")


def instances(tier):
    q = tier == "quick"
    R = ("restored", "restored_twice")
    out = []
    for nw in (0, 2):
        for N, B, E in ((3, 3, 1), (2, 2, 2)) if q else ((5, 3, 1), (3, 3, 2)):
            if nw and E == 2:
                N = 1 if q else 2
            out.append(dict(name=f"batch nw={nw} epochs={E}", reach=R, seconds=850, weight=5,
                            fn=lambda c, nw=nw, N=N, B=B, E=E: h_batch(
                                c, nw, N, B, E, ["ok", "skip", "raise"], False),
                            bounds=f"{nw} workers, {E} epochs of 1..{N} samples per worker, batch size 1..{B}, "
                                   "drop_last either, every batcher outcome, every save point, saved twice"))
        out.append(dict(name=f"generator batch nw={nw}", reach=R, seconds=800, weight=5,
                        fn=lambda c, nw=nw: h_batch(
                            c, nw, 2 if q else 3, 2, 2 if nw == 0 and not q else 1,
                            [(2, "ok"), (0, "ok"), (1, "raise"), (1, "skip")] if q else
                            [(a, b) for a in (0, 1, 2) for b in ("ok", "raise", "skip")], True),
                        bounds=f"{nw} workers, 1..{2 if q else 3} samples, batch size 1..2, 0..2 outputs per "
                               "batch then end/skip/raise, every save point"))
    out.append(dict(name="generator draining", fn=h_drain,
                    bounds="finite source of 1 sample, batch size 2, 2 outputs, saved between them"))
    for nw in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5):
        out.append(dict(name=f"length nw={nw}", fn=lambda c, nw=nw: h_len(c, nw), reach=("len",),
                        bounds=f"{nw} workers, 0..10^6 samples (symbolic), batch size 1..5"))
    return out
