"""Length-changing wrappers (repeat, limit, virtual epochs): exact counts, order, resume."""

from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.epochize_dataset import EpochizeDataset
from megatron.energon.wrappers.limit_dataset import LimitDataset
from megatron.energon.wrappers.repeat_dataset import RepeatDataset

from vt import engine
from vt.env import END, ListSource, Sim, freeze, reset, resume_law

ASSUMPTIONS = [
    "the inner dataset keeps the dataset contract (model ListSource: symbolic payloads, resumable at "
    "every point, resetting it starts its first epoch again)",
]


def wc_for(nw):
    return WorkerConfig(rank=0, world_size=1, num_workers=nw)


def pick_sizes(ctx, nw, lo, hi, w):
    return [ctx.pick("n", lo, hi) if o == w else 1 for o in range(max(nw, 1))]


def share(total, nw, w):
    """worker w's part of `total` samples per epoch"""
    k = max(nw, 1)
    return total // k + (1 if w < total % k else 0)


def h_repeat(ctx, nw, N, R, epochs):
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    n = pick_sizes(ctx, nw, 0, N, w)
    r = ctx.pick("repeats", 1, R)

    def make():
        wc = wc_for(nw)
        return RepeatDataset(ListSource(wc, "s", n), repeats=r, worker_config=wc)

    reset()
    ctx.check(len(make()) == sum(n) * r, "length")

    def ref(w):
        src = ListSource(wc_for(nw), "s", n)
        evs = []
        for e in range(epochs * r):
            evs += [src.sample(w, e, i) for i in range(n[w])]
            if e % r == r - 1:
                evs.append(END)
        return evs

    resume_law(ctx, make, nw, epochs=epochs, w=w, ref=ref)


def h_repeat_inf(ctx, nw, N, horizon):
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    n = pick_sizes(ctx, nw, 1, N, w)

    def make():
        wc = wc_for(nw)
        return RepeatDataset(ListSource(wc, "s", n), worker_config=wc)

    def ref(w):
        src = ListSource(wc_for(nw), "s", n)
        return [src.sample(w, i // n[w], i % n[w]) for i in range(horizon)]

    resume_law(ctx, make, nw, horizon=horizon, w=w, ref=ref)


def h_limit(ctx, nw, N, L, epochs):
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    n = pick_sizes(ctx, nw, 0, N, w)
    limit = ctx.pick("limit", 1, L)

    def make():
        wc = wc_for(nw)
        return LimitDataset(ListSource(wc, "s", n), length=limit, reset_after_epoch=True,
                            worker_config=wc)

    def ref(w):
        src = ListSource(wc_for(nw), "s", n)
        k = min(share(limit, nw, w), n[w])
        return ([src.sample(w, 0, i) for i in range(k)] + [END]) * epochs

    resume_law(ctx, make, nw, epochs=epochs, w=w, ref=ref)


def h_epochize(ctx, nw, N, L, epochs):
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    n = pick_sizes(ctx, nw, 1, N, w)
    length = ctx.pick("length", 1, L)
    ctx.assume(share(length, nw, w) > 0)

    def make():
        wc = wc_for(nw)
        return EpochizeDataset(ListSource(wc, "s", n), length=length, worker_config=wc)

    def ref(w):
        src = ListSource(wc_for(nw), "s", n)
        k = share(length, nw, w)
        evs = []
        for e in range(epochs):
            evs += [src.sample(w, i // n[w], i % n[w]) for i in range(e * k, (e + 1) * k)]
            evs.append(END)
        return evs

    resume_law(ctx, make, nw, epochs=epochs, w=w, ref=ref)


def h_zero_share(ctx, kind):
    """a worker without any share of the epoch gives empty epochs"""
    nw = 3
    w = ctx.pick("worker", 0, 2)
    length = ctx.pick("length", 1, 2)
    wc = wc_for(nw)
    src = ListSource(wc, "s", [1] * nw)
    ds = (EpochizeDataset(src, length=length, worker_config=wc) if kind == "epochize" else
          LimitDataset(src, length=length, reset_after_epoch=True, worker_config=wc))
    reset()
    sim = Sim(ds, w, nw)
    for e in range(2):
        got = 0
        while sim.step() is not END:
            got += 1
        ctx.check(got == share(length, nw, w), "share", lambda: f"worker {w} length {length}: {got}")
    sim.save()
    ctx.reach("shares")


def h_total(ctx, kind, nw):
    """the workers' epochs add up to the reported length, for every length and dataset size"""
    length = ctx.int("length", 1, 10**6)
    total = ctx.int("total", 1, 10**6)
    k = max(nw, 1)
    reset()
    wc = wc_for(nw)
    avail = [total // k + engine.vite(total % k > w, 1, 0) for w in range(k)]

    class Stop(Exception):
        pass

    class Src(ListSource):
        def __vt_len__(self):
            return total

        def __len__(self):
            return int(total)

    ds = (EpochizeDataset if kind == "epochize" else LimitDataset)(
        Src(wc, "s", [1] * k), length=length, worker_config=wc)
    got = ds.__len__()
    if kind == "epochize":
        ctx.check(got == length, "length")
        exp = None
    else:
        # balanced workers: each can supply its share of the limit
        ctx.check(got == engine.vmin(length, total), "length")
        exp = 0
        for w in range(k):
            lw = length // k + engine.vite(length % k > w, 1, 0)
            exp = exp + engine.vmin(lw, avail[w])
        ctx.check(exp == got, "length of all workers",
                  lambda: f"length {int(length)}, samples {int(total)}: {int(exp)} vs {int(got)}")
    ctx.reach("length")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("restored",), weight=3):
        out.append(dict(name=name, fn=fn, bounds=bounds, reach=reach, weight=weight, seconds=700))

    for nw in (0, 2) if q else (0, 1, 2, 3):
        N, X = (2, 3) if q else (3, 4)
        add(f"repeat nw={nw}", lambda c, nw=nw: h_repeat(c, nw, N, X, 2),
            f"{nw} workers, 0..{N} samples, 1..{X} repeats, 2 epochs, every save point")
        add(f"repeat endless nw={nw}", lambda c, nw=nw: h_repeat_inf(c, nw, N + 1, 7 if q else 10),
            f"{nw} workers, 1..{N + 1} samples, {7 if q else 10} events, every save point")
        add(f"limit nw={nw}", lambda c, nw=nw: h_limit(c, nw, N + 1, 5 if q else 7, 3),
            f"{nw} workers, 0..{N + 1} samples, limit 1..{5 if q else 7}, 3 epochs, every save point")
        add(f"epochize nw={nw}", lambda c, nw=nw: h_epochize(c, nw, N + 1, 5 if q else 7, 3),
            f"{nw} workers, 1..{N + 1} samples, epoch length 1..{5 if q else 7}, 3 epochs, every save point")
        add(f"limit length nw={nw}", lambda c, nw=nw: h_total(c, "limit", nw),
            "limit and dataset size symbolic up to 10^6", reach=("length",))
        add(f"epochize length nw={nw}", lambda c, nw=nw: h_total(c, "epochize", nw),
            "length symbolic up to 10^6", reach=("length",))
    for kind in ("limit", "epochize"):
        add(f"{kind} without share", lambda c, kind=kind: h_zero_share(c, kind),
            "3 workers, length 1..2", reach=("shares",))
    return out
