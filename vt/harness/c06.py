"""Per-sample transformations (map, generator map, filter, stream map): exact output stream for every
outcome of the user function, and resumption at every point."""

from megatron.energon.wrappers.skip import SkipSample
from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.filter_dataset import FilterDataset
from megatron.energon.wrappers.iter_map_dataset import IterMapDataset
from megatron.energon.wrappers.map_dataset import MapDataset

from vt.env import END, ListSource, VB, resume_law

ASSUMPTIONS = [
    "the inner dataset keeps the dataset contract (model ListSource: symbolic payloads, resumable at "
    "every point); user functions are deterministic in the sample, with arbitrary (symbolic) outcomes "
    "skip / raise / 0..2 outputs",
    "torch.utils.data.get_worker_info returns the simulated worker",
]


class UserError(Exception):
    pass


def wc_for(nw, rank=0, world=1):
    return WorkerConfig(rank=rank, world_size=world, num_workers=nw)


def out_of(s, tag, wc, parts=None):
    return VB(__key__=s.__key__ + tag, __restore_key__=s.__restore_key__, __subflavor__=None,
              __subflavors__=None, value=[s.value] if parts is None else parts, uid=s.uid + tag,
              seen_index=wc.active_worker_sample_index)


def h_map(ctx, nw, n, epochs, outcomes):
    handled = []

    def make():
        wc = wc_for(nw)
        src = ListSource(wc, "s", [n] * max(nw, 1))

        def fn(s):
            o = ctx.choose(f"fn.{s.uid}", outcomes)
            if o == "skip":
                raise SkipSample()
            if o == "raise":
                raise UserError(s.uid)
            return out_of(s, "", wc)

        return MapDataset(src, fn, stateless_map_fn=True, worker_config=wc,
                          error_handler=lambda e, s: handled.append((type(e).__name__, s.uid)))

    def ref(w):
        out = []
        src = ListSource(wc_for(nw), "s", [n] * max(nw, 1))
        calls = 0
        exp_handled = []
        for e in range(epochs):
            for i in range(n):
                s = src.sample(w, e, i)
                o = ctx.choose(f"fn.{s.uid}", outcomes)
                idx, calls = calls, calls + 1
                if o == "ok":
                    out.append(VB(s.uid, ("MapDataset", idx) + s.__restore_key__, None, None,
                                  [s.value], s.uid, idx * max(nw, 1) + w))
            out.append(END)
        return out

    resume_law(ctx, make, nw, epochs=epochs, ref=ref)
    for name, uid in handled:
        ctx.check(ctx.choose(f"fn.{uid}", outcomes) == "raise" and name == "UserError",
                  "error handler gets exactly the failing samples", f"{name} {uid}")


def h_genmap(ctx, nw, n, epochs, outcomes):
    def make():
        wc = wc_for(nw)
        src = ListSource(wc, "s", [n] * max(nw, 1))

        def fn(s):
            cnt, end = ctx.choose(f"fn.{s.uid}", outcomes)
            for j in range(cnt):
                yield out_of(s, f".{j}", wc, [s.value, j])
            if end == "skip":
                raise SkipSample()
            if end == "raise":
                raise UserError(s.uid)

        return MapDataset(src, fn, stateless_map_fn=True, worker_config=wc,
                          error_handler=lambda e, s: None)

    def ref(w):
        out = []
        src = ListSource(wc_for(nw), "s", [n] * max(nw, 1))
        calls = 0
        for e in range(epochs):
            for i in range(n):
                s = src.sample(w, e, i)
                cnt, end = ctx.choose(f"fn.{s.uid}", outcomes)
                idx, calls = calls, calls + 1
                for j in range(cnt):
                    out.append(VB(s.uid + f".{j}", ("MapDataset", idx, j) + s.__restore_key__, None,
                                  None, [s.value, j], s.uid + f".{j}", idx * max(nw, 1) + w))
            out.append(END)
        return out

    resume_law(ctx, make, nw, epochs=epochs, ref=ref)


def h_filter(ctx, nw, n, epochs):
    def make():
        wc = wc_for(nw)
        src = ListSource(wc, "s", [n] * max(nw, 1))
        return FilterDataset(src, filter_fn=lambda s: ctx.bool(f"keep.{s.uid}"), worker_config=wc)

    def ref(w):
        src = ListSource(wc_for(nw), "s", [n] * max(nw, 1))
        out = []
        for e in range(epochs):
            for i in range(n):
                s = src.sample(w, e, i)
                if ctx.bool(f"keep.{s.uid}"):
                    out.append(s)
            out.append(END)
        return out

    resume_law(ctx, make, nw, epochs=epochs, ref=ref)


def h_itermap(ctx, nw, n, epochs, outcomes):
    """stateless stream map: 0..2 outputs per input, may fail on an input"""

    def make():
        wc = wc_for(nw)
        src = ListSource(wc, "s", [n] * max(nw, 1))

        def fn(it):
            for s in it:
                cnt, end = ctx.choose(f"fn.{s.uid}", outcomes)
                for j in range(cnt):
                    yield VB(__key__=s.__key__ + f".{j}", __restore_key__=(), __subflavor__=None,
                             __subflavors__=None, value=[s.value, j], uid=s.uid + f".{j}",
                             seen_index=None)
                if end == "skip":
                    raise SkipSample()
                if end == "raise":
                    raise UserError(s.uid)

        return IterMapDataset(src, fn, stateless_iter_fn=True, worker_config=wc,
                              error_handler=lambda e, s: None)

    def ref(w):
        src = ListSource(wc_for(nw), "s", [n] * max(nw, 1))
        out = []
        for e in range(epochs):
            for i in range(n):
                s = src.sample(w, e, i)
                cnt, end = ctx.choose(f"fn.{s.uid}", outcomes)
                for j in range(cnt):
                    out.append((s, j))
            out.append(END)
        return out

    # documented: savable only if the function yields 0 or 1 sample per input sample
    one = all(c <= 1 for c, _ in outcomes)
    from vt.env import Sim, reset, check_restore_keys, freeze
    reset()
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    u = Sim(make(), w, nw)
    U = []
    while U.count(END) < epochs:
        U.append(freeze(u.step()))
    ctx.check(len(U) == len(ref(w)), "stream", lambda: f"{U} vs {ref(w)}")
    for ev, x in zip(U, ref(w)):
        if x is END or ev is END:
            ctx.check(x is ev, "stream", lambda: f"{U} vs {ref(w)}")
        else:
            ctx.check(ev.value[0] == x[0].value, "stream", lambda: f"{U} vs {ref(w)}")
            ctx.check(ev.value[1] == x[1], "stream")
    if one:
        resume_law(ctx, make, nw, epochs=epochs, w=w)
    else:
        check_restore_keys(ctx, make, w, nw, U)
        ctx.reach("restored")


def instances(tier):
    q = tier == "quick"
    MO = ["ok", "skip", "raise"]
    GO = [(c, e) for c in (0, 1, 2) for e in ("ok", "skip", "raise")]
    out = []
    R = ("restored",)
    for nw in (0, 2) if q else (0, 1, 2, 3):
        n = 2 if q else 3
        out.append(dict(name=f"map nw={nw}", fn=lambda c, nw=nw, n=n: h_map(c, nw, n, 2, MO),
                        reach=R, seconds=300, weight=3,
                        bounds=f"{nw} workers, {n} samples per worker and epoch, 2 epochs, every "
                               "outcome ok/skip/raise per sample, every save point, restored twice"))
        out.append(dict(name=f"filter nw={nw}", fn=lambda c, nw=nw, n=n: h_filter(c, nw, n, 2),
                        reach=R, seconds=300,
                        bounds=f"{nw} workers, {n} samples, 2 epochs, every filter outcome, every save point"))
    for nw in (0, 2):
        h = 1 if q else 2
        go = [(0, "ok"), (1, "ok"), (2, "ok"), (1, "skip"), (1, "raise"), (0, "raise")] if q else GO
        out.append(dict(name=f"generator map nw={nw}",
                        fn=lambda c, nw=nw, h=h, go=go: h_genmap(c, nw, 2, h, go), reach=R,
                        seconds=600, weight=9,
                        bounds=f"{nw} workers, 2 samples per epoch, {h} epochs, per sample 0..2 "
                               "outputs then end/skip/raise, every save point"))
    for nw in (0, 2):
        out.append(dict(name=f"stream map 0..1 nw={nw}",
                        fn=lambda c, nw=nw: h_itermap(
                            c, nw, 2, 2 if nw == 0 or not q else 1,
                            [(0, "ok"), (1, "ok"), (0, "skip"), (0, "raise")]),
                        reach=R, seconds=600, weight=9,
                        bounds=f"{nw} workers, 2 samples per epoch, 0..1 outputs per input then "
                               "continue/skip/raise, every save point"))
        out.append(dict(name=f"stream map 0..2 nw={nw}",
                        fn=lambda c, nw=nw: h_itermap(c, nw, 2, 1 if q else 2, GO),
                        reach=R, seconds=600, weight=4,
                        bounds=f"{nw} workers, 2 samples per epoch, 0..2 outputs per input then "
                               "continue/skip/raise; restore keys"))
    return out
