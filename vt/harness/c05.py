"""Shuffle buffer: every epoch is a permutation of the source, bounded displacement, exact resume, for
every sequence of random draws."""

from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.repeat_dataset import RepeatDataset
from megatron.energon.wrappers.shuffle_buffer_dataset import ShuffleBufferDataset

from vt.env import END, ListSource, Sim, freeze, reset, resume_law

ASSUMPTIONS = [
    "the inner dataset keeps the dataset contract (model ListSource: symbolic payloads)",
    "torch.randint on the worker generator returns any value in its range, equal generator states "
    "give equal values (uninterpreted function of seed and draw count)",
]


def make_for(nw, n, size, infinite):
    def make():
        wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
        ds = ListSource(wc, "s", [n] * max(nw, 1))
        if infinite:
            ds = RepeatDataset(ds, worker_config=wc)
        return ShuffleBufferDataset(ds, size=size, worker_config=wc)
    return make


def h_perm(ctx, nw, n, size, epochs):
    n = ctx.pick("n", 0, n)
    size = ctx.pick("size", 1, size)
    make = make_for(nw, n, size, False)
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    reset()
    s = Sim(make(), w, nw)
    src = ListSource(WorkerConfig(rank=0, world_size=1, num_workers=nw), "s", [n] * max(nw, 1))
    for e in range(epochs):
        out = []
        while True:
            ev = s.step()
            if ev is END:
                break
            out.append(ev)
            ctx.check(len(out) <= n, "each source sample once")
        ctx.check(len(out) == n, "each source sample once", lambda: f"{len(out)} of {n}")
        left = list(range(n))
        for pos, ev in enumerate(out):
            cand = [i for i in left if ev.__restore_key__ == ("ListSource", "s", w, e, i)]
            ctx.check(len(cand) == 1, "each source sample once", lambda: f"{out}")
            i = cand[0]
            left.remove(i)
            ctx.check(ev.value == src.sample(w, e, i).value, "sample unchanged")
            ctx.check(i < pos + size, "window", lambda: f"output {pos} is source sample {i}, size {size}")
        ctx.reach("epoch")


def h_free(ctx, n, size):
    """every order that the window allows is possible for some draws (the draws are not ignored)"""
    make = make_for(0, n, size, False)
    want = [ctx.pick(f"first{i}", 0, n - 1) for i in range(1)]
    reset()
    s = Sim(make(), 0, 0)
    ev = s.step()
    if want[0] < min(size, n) and ev.__restore_key__[4] == want[0]:
        ctx.reach(f"first={want[0]}")


def h_resume(ctx, nw, n, size, horizon, infinite):
    resume_law(ctx, make_for(nw, n, size, infinite), nw,
               horizon=horizon if infinite else None, epochs=None if infinite else 2,
               save_ok=None if infinite else (
                   # finite source: the source has not been exhausted with samples still buffered
                   lambda b, evs: not (b.ds.dataset._offset[b.wid] == 0 and evs and evs[-1] is not END)))


def h_drain(ctx, n, size):
    """finite source, saved while the buffer is drained"""
    resume_law(ctx, make_for(0, n, size, False), 0, epochs=2, modes=("once",), restore_keys=False,
               save_ok=lambda b, evs: b.ds.dataset._offset[b.wid] == 0 and bool(evs) and evs[-1] is not END)


def instances(tier):
    q = tier == "quick"
    out = []
    for nw in (0, 2):
        N, S, E = (4, 3, 1) if q else (5, 5, 1)
        out.append(dict(name=f"permutation nw={nw}",
                        fn=lambda c, nw=nw, N=N, S=S, E=E: h_perm(c, nw, N, S, E), reach=("epoch",),
                        seconds=700, weight=8,
                        bounds=f"{nw} workers, 0..{N} samples, buffer size 1..{S}, every draw, {E} epoch"))
        out.append(dict(name=f"two epochs nw={nw}",
                        fn=lambda c, nw=nw: h_perm(c, nw, 3, 2 if q else 3, 2), reach=("epoch",),
                        seconds=700, weight=8,
                        bounds=f"{nw} workers, 0..3 samples, buffer size 1..{2 if q else 3}, every draw, 2 epochs"))
        out.append(dict(name=f"resume endless nw={nw}",
                        fn=lambda c, nw=nw: h_resume(c, nw, 2, 2, 4 if q else 5, True),
                        reach=("restored", "restored_twice"), seconds=700, weight=8,
                        bounds=f"{nw} workers, endless source of 2 sample epochs, buffer size 2, "
                               f"{4 if q else 5} outputs, every draw, every save point, saved twice"))
    out.append(dict(name="resume endless size 3",
                    fn=lambda c: h_resume(c, 0, 4, 3, 3 if q else 4, True),
                    reach=("restored", "restored_twice"), seconds=700, weight=8,
                    bounds=f"endless source of 4 sample epochs, buffer size 3, {3 if q else 4} outputs, every draw"))
    out.append(dict(name="resume finite",
                    fn=lambda c: h_resume(c, 0, 3, 2, 0, False),
                    reach=("restored", "restored_twice"), seconds=700, weight=8,
                    bounds="finite source of 3 samples, buffer size 2, 2 epochs, every draw, save points "
                           "before the source is exhausted and between epochs"))
    out.append(dict(name="resume finite draining", fn=lambda c: h_drain(c, 3, 3), seconds=700,
                    bounds="finite source of 3 samples, buffer size 3, saved while draining"))
    for n, s in ((3, 2), (4, 3)):
        out.append(dict(name=f"draws used n={n} size={s}", fn=lambda c, n=n, s=s: h_free(c, n, s),
                        reach=tuple(f"first={i}" for i in range(s)),
                        bounds="reachability of every allowed first sample"))
    return out
