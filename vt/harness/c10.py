"""Blending and concatenation: where the samples come from, restore keys, resume."""

from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.blend_dataset import BlendDataset
from megatron.energon.wrappers.concat_dataset import ConcatDataset
from megatron.energon.wrappers.mix_batch_dataset import MixBatchDataset
from megatron.energon.wrappers.skip import SkipSample

from vt.env import END, ListSource, Sim, VB, VS, freeze, reset, resume_law, same, show

ASSUMPTIONS = [
    "the inner datasets keep the dataset contract (model ListSource); random draws are an uninterpreted "
    "function of the generator state, every outcome with positive weight covered",
]


def wc_for(nw):
    return WorkerConfig(rank=0, world_size=1, num_workers=nw)


def tagged(s, *head):
    s.__restore_key__ = tuple(head) + s.__restore_key__
    return s


def sizes_of(ctx, nw, D, lo, hi):
    return [[ctx.pick(f"n.{d}.w{w}", lo, hi) for w in range(max(nw, 1))] for d in range(D)]


def h_blend(ctx, nw, D, N, horizon, weights):
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    # sizes of this worker; the other workers have one sample of each
    n = [[ctx.pick(f"n.{d}", 0, N) if o == w else 1 for o in range(max(nw, 1))] for d in range(D)]
    ctx.assume(any(n[d][w] > 0 and weights[d] > 0 for d in range(D)))

    def make():
        wc = wc_for(nw)
        return BlendDataset(*[(ListSource(wc, f"d{d}", n[d]), weights[d]) for d in range(D)],
                            worker_config=wc)

    # every sample is the next one of some dataset with samples and weight, in that dataset's order
    reset()
    sim = Sim(make(), w, nw)
    pos = [0] * D
    srcs = [ListSource(wc_for(nw), f"d{d}", n[d]) for d in range(D)]
    for i in range(horizon):
        ev = freeze(sim.step())
        ctx.check(isinstance(ev, VS), "endless", lambda: f"event {i} is {ev}")
        d = int(ev.uid[1:].split(".")[0])
        ctx.check(n[d][w] > 0 and weights[d] > 0, "source", lambda: f"sample of dataset {d}: {show([ev])}")
        e, j = divmod(pos[d], n[d][w])
        pos[d] += 1
        exp = tagged(srcs[d].sample(w, e, j), "BlendDataset", d)
        ctx.check(same(exp, ev), "stream", lambda: f"expected {show([exp])} got {show([ev])}")
    resume_law(ctx, make, nw, horizon=horizon, w=w)


def h_blend_reach(ctx, weights, N=1):
    """every dataset with positive weight can be drawn at every step (no dataset is starved)"""
    D = len(weights)

    def make():
        wc = wc_for(0)
        return BlendDataset(*[(ListSource(wc, f"d{d}", [N]), weights[d]) for d in range(D)],
                            worker_config=wc)

    reset()
    sim = Sim(make(), 0, 0)
    for i in range(2):
        ev = sim.step()
        ctx.reach(f"step {i} dataset {ev.uid[1]}")


def h_mix(ctx, nw, N, bs, batches, weights, outcomes):
    """batches of blended samples: every batch is full, and every dataset goes through them in its order"""
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    D = len(weights)
    n = [[ctx.pick(f"n.{d}", 0, N) if o == w else 1 for o in range(max(nw, 1))] for d in range(D)]
    ctx.assume(any(x[w] > 0 for x in n))
    calls = []

    def make():
        wc = wc_for(nw)

        def mix(batch):
            calls.append([s.uid for s in batch])
            first = batch[0].uid
            # (skipping everything never ends)
            can_skip = outcomes == ["ok", "skip"] and ".e0." in first
            o = ctx.choose("fn." + "+".join(s.uid for s in batch), outcomes) if can_skip else "ok"
            if o == "skip":
                raise SkipSample()
            return VB(__key__="", __restore_key__=(), __subflavor__=None, __subflavors__=None, value=[s.value for s in batch],
                      uid="+".join(s.uid for s in batch), seen_index=wc.active_worker_sample_index)

        kw = {} if outcomes is None else dict(batch_mix_fn=mix)
        return MixBatchDataset(*[(ListSource(wc, f"d{d}", n[d]), weights[d]) for d in range(D)],
                               batch_size=bs, worker_config=wc, **kw)

    reset()
    sim = Sim(make(), w, nw)
    got = []
    for i in range(batches):
        ev = sim.step()
        if outcomes is None:
            ctx.check(isinstance(ev, list) and len(ev) == bs, "batch", lambda: f"{ev}")
            got += [s.uid for s in ev]
        else:
            ctx.check(isinstance(ev, VB) and len(ev.value) == bs, "batch", lambda: f"{ev}")
            ctx.check(ev.uid == "+".join(calls[-1]), "batch", lambda: f"{ev} {calls}")
    if outcomes is not None:
        ctx.check(all(len(c) == bs for c in calls), "batch size", lambda: f"{calls}")
        got = [u for c in calls for u in c]
    pos = [0] * D
    for u in got:
        d = int(u[1:].split(".")[0])
        e, j = divmod(pos[d], n[d][w])
        pos[d] += 1
        exp = ListSource(wc_for(nw), f"d{d}", n[d]).sample(w, e, j).uid
        ctx.check(u == exp, "order", lambda: f"expected {exp} got {u} of {got}")
    resume_law(ctx, make, nw, horizon=batches, w=w, restore_keys=False)


def h_concat(ctx, nw, D, N, epochs):
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    n = [[ctx.pick(f"n.{d}", 0, N) if o == w else 1 for o in range(max(nw, 1))] for d in range(D)]

    def make():
        wc = wc_for(nw)
        return ConcatDataset(*[ListSource(wc, f"d{d}", n[d]) for d in range(D)], worker_config=wc)

    reset()
    ctx.check(len(make()) == sum(sum(x) for x in n), "length")

    def ref(w):
        srcs = [ListSource(wc_for(nw), f"d{d}", n[d]) for d in range(D)]
        evs = []
        for e in range(epochs):
            for d in range(D):
                evs += [tagged(srcs[d].sample(w, e, i), "ConcatDataset", d) for i in range(n[d][w])]
            evs.append(END)
        return evs

    resume_law(ctx, make, nw, epochs=epochs, w=w, ref=ref)


def instances(tier):
    q = tier == "quick"
    out = []
    for nw in (0, 2):
        for D, weights in ((2, (1.0, 3.0)), (3, (1.0, 0.5, 2.0))) if q else (
                (2, (1.0, 3.0)), (3, (1.0, 0.5, 2.0)), (4, (1.0, 1.0, 2.0, 0.1))):
            h = (5 if D == 2 else 3) + (0 if q else 1) - (1 if nw and q else 0)
            out.append(dict(name=f"blend of {D} nw={nw}", weight=5, seconds=600, reach=("restored",),
                            fn=lambda c, nw=nw, D=D, weights=weights, h=h: h_blend(c, nw, D, 2, h, weights),
                            bounds=f"{D} datasets of 0..2 samples (at least one with samples), {nw} workers, "
                                   f"{h} samples, every draw, every save point"))
    out.append(dict(name="blend zero weight", reach=("restored",), fn=lambda c: h_blend(c, 0, 3, 1, 3, (1.0, 0.0, 2.0)),
                    bounds="3 datasets, one with weight 0, 3 samples"))
    out.append(dict(name="blend reaches all", fn=lambda c: h_blend_reach(c, (1.0, 0.001, 5.0)),
                    reach=tuple(f"step {i} dataset {d}" for i in range(2) for d in range(3)),
                    bounds="3 datasets, 2 steps: reachability witnesses for every dataset at every step"))
    for nw in (0, 2):
        for bs, k, outcomes in ((1, 2, ["ok", "skip"]), (2, 2, None))[nw // 2:] if q else (
                (1, 3, ["ok", "skip"]), (2, 2, ["ok", "skip"]), (2, 3, None), (3, 2, ["ok"])):
            out.append(dict(name=f"mixed batches of {bs} nw={nw} {'default' if outcomes is None else '/'.join(outcomes)}", weight=3, seconds=600,
                            reach=("restored",), fn=lambda c, nw=nw, bs=bs, k=k, o=outcomes: h_mix(c, nw, 1 if nw and q else 2, bs, k, (1.0, 2.0), o),
                            bounds=f"2 datasets of 0..{1 if nw and q else 2} samples, {nw} workers, {k} batches of {bs}, every draw, every save point"))
    for nw in (0, 2):
        for D, N, E in ((2, 2, 2), (3, 1, 2)) if q else ((2, 3, 2), (3, 2, 2), (3, 1, 3)):
            out.append(dict(name=f"concat of {D} nw={nw} epochs={E}", reach=("restored",), seconds=600,
                            fn=lambda c, nw=nw, D=D, N=N, E=E: h_concat(c, nw, D, N, E),
                            bounds=f"{D} datasets of 0..{N} samples, {nw} workers, {E} epochs, every save point"))
    return out
