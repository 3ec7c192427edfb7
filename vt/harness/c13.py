"""Data loaders with worker processes: checkpoints under every prefetch and checkpoint timing."""

import copy
import random
import threading

import numpy as np
import torch

from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.epochize_dataset import EpochizeDataset
from megatron.energon.wrappers.map_dataset import MapDataset
from megatron.energon.wrappers.repeat_dataset import RepeatDataset

from vt import mploader
from vt.env import END, ListSource, VB, reset, same, show
from vt.mploader import LoaderSim

ASSUMPTIONS = [
    "torch's multi-process iterator and the worker processes are modelled (vt/mploader.py): two requests per worker "
    "outstanding, round-robin in-order delivery, persistent workers",
    "checkpoint_every_min_n_samples keeps its default (2 * number of workers), as documented",
    "states are restored from a copy (as loaded from disk) into a fresh loader",
]


def make_ds(nw, n, rnd, epoch=None, rank=0, ws=1):
    wc = WorkerConfig(rank=rank, world_size=ws, num_workers=nw)
    src = ListSource(wc, f"r{rank}", n)

    def fn(s):
        awc = WorkerConfig.active_worker_config
        r = (random.getrandbits(16), int(torch.empty((), dtype=torch.int64).random_(0, 1 << 16)),
             int(np.random.randint(1 << 16))) if rnd else None
        return VB(__key__=s.uid, __restore_key__=s.__restore_key__, __subflavor__=None,
                  __subflavors__=None, value=(s.value, r), uid=s.uid,
                  seen_index=(awc.active_worker_sample_index, awc.active_worker_batch_index))

    ds = MapDataset(src, fn, stateless_map_fn=True, worker_config=wc)
    if epoch is None:
        return RepeatDataset(ds, worker_config=wc)
    return EpochizeDataset(ds, length=epoch, worker_config=wc)


def run(sim, n):
    return [sim.step() for _ in range(n)]


def expect(ctx, exp, sim, label, what):
    got = []
    for e in exp:
        got.append(sim.step())
        ctx.check(same(e, got[-1]), label,
                  lambda: f"{what}\n expected {show(exp)}\n got      {show(got)}")


def h_law(ctx, nw, T, rnd, n, max_k, min_k=0, max_j=2, timed=None, modes=("once", "twice", "earlier"),
          rank=0, ws=1, ahead=2):
    mploader.cleanup()
    reset()

    def make():
        return make_ds(nw, n, rnd, rank=rank, ws=ws)

    def sim(tag, clock=False):
        s = LoaderSim(make, tag, checkpoint_every_sec=60)
        s.world.max_ahead = ahead
        s.world.timed = (lambda j: timed is None or j in timed) if clock else (lambda j: False)
        return s

    ref = run(sim("R"), T)
    for i, e in enumerate(ref):
        ctx.check(e is not END and f".w{i % max(nw, 1)}." in e.uid, "order", lambda: show(ref))
        ctx.check(e.seen_index == (i, i), "sample index",
                  lambda: f"{show(ref)}: sample {i} saw {e.seen_index}")
    mode = ctx.choose("mode", modes)
    k = ctx.pick("save_at", min_k, max_k)
    b = sim("B", True)
    if mode == "earlier" and k > 0:
        i = ctx.pick("save_before", 0, k - 1)
        expect(ctx, ref[:i], b, "undisturbed", "before the first save")
        b.save()
        expect(ctx, ref[i:k], b, "undisturbed", f"after a save at {i}")
    else:
        expect(ctx, ref[:k], b, "undisturbed", "second run")
    if k == 0 and ctx.bool("iterator started"):
        with b.world:
            b.it = iter(b.loader)
    state = b.save()
    b.world.timed = lambda j: False
    ctx.reach(f"saved with{'' if k else 'out'} samples")
    if mode == "once":
        expect(ctx, ref[k:], b, "undisturbed", f"run continued after saving at {k}")
    state = copy.deepcopy(state)
    c = sim("C", True)
    c.restore(state)
    if mode != "twice":
        c.world.timed = lambda j: False
        expect(ctx, ref[k:], c, "resume", f"restored at {k}")
        return
    j = ctx.pick("save_again_after", 0, max_j)
    expect(ctx, ref[k:k + j], c, "resume", f"restored at {k}")
    if j == 0 and ctx.bool("iterator started again"):
        with c.world:
            c.it = iter(c.loader)
    state2 = copy.deepcopy(c.save())
    d = sim("D")
    d.restore(state2)
    ctx.reach("restored twice")
    expect(ctx, ref[k + j:], d, "resume", f"restored at {k}, saved after {j} more, restored again")


def h_epochs(ctx, nw, L, T, save_at, rnd=False, timed=(), ahead=2, twice=False, exact=False):
    """(virtual) epochs of L samples: saves inside and between them"""
    mploader.cleanup()
    reset()
    n = [50] * max(nw, 1)

    def sim(tag, clock=False):
        s = LoaderSim(lambda: make_ds(nw, n, rnd, epoch=L), tag, checkpoint_every_sec=60)
        s.world.max_ahead = ahead
        s.world.timed = (lambda j: timed is None or j in timed) if clock else (lambda j: False)
        return s

    ref = run(sim("R"), T)
    for i, e in enumerate(ref):
        ctx.check((e is END) == (i % (L + 1) == L), "epochs", lambda: show(ref))
    if nw <= 1:
        ctx.check(len({e.uid for e in ref if e is not END}) == sum(e is not END for e in ref), "epochs", lambda: show(ref))
    k = save_at[ctx.choose("save_at", list(range(len(save_at))))]
    b = sim("B", True)
    expect(ctx, ref[:k], b, "undisturbed", "second run")
    if b.it is None and ctx.bool("next iterator started"):
        with b.world:
            b.it = iter(b.loader)
    state = copy.deepcopy(b.save())
    b.world.timed = lambda j: False
    ctx.reach("saved")
    expect(ctx, ref[k:], b, "undisturbed", f"run continued after saving at {k}")

    def resumed(state, rest, what):
        c = sim("C" + what[:1])
        c.restore(state)
        first = c.step()
        # saved after the last sample of an epoch: the end of the epoch may have been seen already
        if rest and rest[0] is END and first is not END:
            rest = rest[1:]
        ctx.check(same(rest[0], first), "resume", lambda: f"{what}\n expected {show(rest)}\n got {show([first])}")
        if exact or k % (L + 1) % max(nw, 1) == 0:
            return expect(ctx, rest[1:], c, "resume", what)
        # the epoch goes on exactly; the next ones have the same samples, each worker's in its order
        m = rest.index(END) + 1 if END in rest else len(rest)
        expect(ctx, rest[1:m], c, "resume", what)
        while END in rest[m:]:
            exp, m = rest[m:m + L + 1], m + L + 1
            got = run(c, L + 1)
            ctx.check(got[-1] is END and all(same(by(w, exp), by(w, got)) for w in range(nw)), "resume",
                      lambda: f"{what}, next epoch\n expected {show(exp)}\n got {show(got)}")

    if not twice:
        return resumed(state, ref[k:], f"restored at {k}")
    c = sim("M", True)
    c.restore(state)
    state2 = copy.deepcopy(c.save())
    resumed(state2, ref[k:], f"restored at {k}, saved, restored again")


def by(w, evs):
    return [e for e in evs if e is not END and f".w{w}." in e.uid]


class Group:
    def __init__(self, ranks):
        self.ranks = ranks


class Ranks:
    """the ranks of a torch.distributed run as threads, one running at a time; a collective call returns when every rank of
    the group has made it"""

    NAMES = ("is_available", "is_initialized", "get_rank", "get_world_size", "get_global_rank", "get_group_rank",
             "get_process_group_ranks", "all_gather_object", "gather_object", "scatter_object_list", "broadcast_object_list", "barrier")

    def __init__(self, group):
        self.group = group

    def members(self, group):
        assert group is self.group or (group is None and isinstance(self.group, list)), f"wrong group {group}"
        return group.ranks if group else self.group

    # ---- torch.distributed
    def is_available(self):
        return True

    def is_initialized(self):
        return True

    def get_process_group_ranks(self, group=None):
        return list(self.members(group))

    def get_rank(self, group=None):
        return self.me if group is None else self.members(group).index(self.me)

    def get_world_size(self, group=None):
        return len(self.members(group))

    def get_global_rank(self, group, group_rank):
        return self.members(group)[group_rank]

    def get_group_rank(self, group, global_rank):
        return self.members(group).index(global_rank)

    def _root(self, group, glob, local):
        if local is not None:
            return self.members(group)[local]
        glob = 0 if glob is None else glob
        if glob not in self.members(group):
            raise ValueError(f"Global rank {glob} is not part of group")
        return glob

    def all_gather_object(self, object_list, obj, group=None):
        assert len(object_list) == len(self.members(group)), "length of the output list"
        for i, o in enumerate(self._call("all_gather", None, group, obj)):
            object_list[i] = o

    def gather_object(self, obj, object_gather_list=None, dst=None, group=None, group_dst=None):
        root = self._root(group, dst, group_dst)
        assert (object_gather_list is not None) == (self.me == root), "object_gather_list only on the destination"
        assert root != self.me or len(object_gather_list) == len(self.members(group))
        for i, o in enumerate(self._call("gather", root, group, obj)):
            if root == self.me:
                object_gather_list[i] = o

    def scatter_object_list(self, scatter_object_output_list, scatter_object_input_list=None, src=None, group=None, group_src=None):
        root = self._root(group, src, group_src)
        assert root != self.me or len(scatter_object_input_list) == len(self.members(group))
        m = self.members(group)
        got = self._call("scatter", root, group, scatter_object_input_list if root == self.me else None)
        scatter_object_output_list[0] = got[m.index(root)][m.index(self.me)]

    def broadcast_object_list(self, object_list, src=None, group=None, device=None, group_src=None):
        root = self._root(group, src, group_src)
        got = self._call("broadcast", root, group, object_list)
        object_list[:] = got[self.members(group).index(root)]

    def barrier(self, group=None, **k):
        self._call("barrier", None, group, None)

    def _call(self, kind, root, group, obj):
        me = self.me
        self.calls[me] = (kind, root, copy.deepcopy(obj))
        self.main.set()
        self.go[me].wait()
        self.go[me].clear()
        if self.dead:
            raise SystemExit
        return copy.deepcopy(self.result)

    # ---- running
    def run(self, fns):
        """fns: function of every rank of the group; returns their results, or None if they wait for each other forever"""
        ranks = self.members(self.group if isinstance(self.group, Group) else None)
        self.go = {r: threading.Event() for r in ranks}
        self.main = threading.Event()
        self.calls, self.dead, done, failed = {}, False, {}, []

        def body(r, fn):
            self.go[r].wait()
            self.go[r].clear()
            if self.dead:
                return
            try:
                done[r] = fn()
            except SystemExit:
                pass
            except BaseException as e:  # noqa: B902
                failed.append(e)
            self.main.set()

        saved = {n: getattr(torch.distributed, n) for n in self.NAMES}
        threads = {r: threading.Thread(target=body, args=(r, fn), daemon=True) for r, fn in zip(ranks, fns)}
        try:
            for n in self.NAMES:
                setattr(torch.distributed, n, getattr(self, n))
            for t in threads.values():
                t.start()

            def resume(r):
                self.me = r
                self.go[r].set()
                self.main.wait()
                self.main.clear()

            for r in ranks:
                resume(r)
            while not failed and len(done) < len(ranks):
                if len(self.calls) < len(ranks) or len({c[:2] for c in self.calls.values()}) > 1:
                    return None
                self.result = [self.calls[r][2] for r in ranks]
                self.calls = {}
                for r in ranks:
                    if r not in done:
                        resume(r)
            if failed:
                raise failed[0]
            return [done[r] for r in ranks]
        finally:
            self.dead = True
            for r in ranks:
                self.go[r].set()
            for t in threads.values():
                t.join()
            for n, f in saved.items():
                setattr(torch.distributed, n, f)


def h_distributed(ctx, ws, group):
    """the states of all ranks gathered on every rank or on one, and restored from there"""
    mploader.cleanup()
    reset()
    dist = Ranks(Group(group) if group else list(range(ws)))

    def sim(tag, r):
        def make():
            ds = make_ds(0, [50], False, rank=r, ws=ws)
            ds.worker_config.data_parallel_group = dist.group if group else None
            return ds
        s = LoaderSim(make, tag)
        s.loader.worker_config.data_parallel_group = dist.group if group else None
        return s

    refs = [run(sim(f"R{r}", r), 5) for r in range(ws)]
    ks = [ctx.choose(f"samples.{r}", [0, 1, 2]) for r in range(ws)]
    dst = ctx.choose("saved on", [None] + list(range(ws)))
    sims = [sim(f"B{r}", r) for r in range(ws)]
    for r in range(ws):
        expect(ctx, refs[r][:ks[r]], sims[r], "undisturbed", f"rank {r}")
    states = dist.run([lambda s=s: s.loader.save_state(*[dst][:dst is not None]) for s in sims])
    ctx.check(states is not None, "gather", lambda: f"the ranks wait for each other forever, saving on {dst}")
    for r in range(ws):
        if dst in (None, r):
            ctx.check(isinstance(states[r], list) and len(states[r]) == ws, "gather", lambda: f"rank {r} of {dst}: {states[r]}")
        else:
            ctx.check(states[r] is None, "gather", lambda: f"rank {r} of {dst}: {states[r]}")
        expect(ctx, refs[r][ks[r]:], sims[r], "undisturbed", f"rank {r} continued after saving")
    saved = copy.deepcopy(states[dst or 0])
    src = ctx.choose("restored from", [None] + list(range(ws)))
    ctx.reach("everywhere" if src is None else "from one rank")
    sims = [sim(f"C{r}", r) for r in range(ws)]
    res = dist.run([lambda s=s, r=r: s.loader.restore_state(saved) if src is None
                    else s.loader.restore_state(saved if r == src else None, src) for r, s in enumerate(sims)])
    ctx.check(res is not None, "restored", lambda: f"the ranks wait for each other forever, restored from {src}")
    for r in range(ws):
        expect(ctx, refs[r][ks[r]:], sims[r], "restored", f"rank {r}, samples {ks}, saved on {dst}, restored from {src}")


def h_single(ctx, nw):
    """save_state / restore_state without torch.distributed"""
    mploader.cleanup()
    reset()

    def sim(tag):
        s = LoaderSim(lambda: make_ds(nw, [50] * max(nw, 1), False), tag)
        s.world.timed = lambda j: False
        return s

    ref = run(sim("R"), 6)
    k = ctx.choose("samples", [0, 1, 2, 3])
    b = sim("B")
    expect(ctx, ref[:k], b, "undisturbed", "second run")
    with b.world:
        state = copy.deepcopy(b.loader.save_state())
    expect(ctx, ref[k:], b, "undisturbed", "continued")
    c = sim("C")
    with c.world:
        c.loader.restore_state(state)
    expect(ctx, ref[k:], c, "restored", f"restored at {k}")
    ctx.reach("restored")


def h_keys(ctx, nw, T, n, rank, ws):
    """restore keys lead back to the sample, in a loader that is or is not iterating"""
    mploader.cleanup()
    reset()

    def make():
        return make_ds(nw, n, False, rank=rank, ws=ws)

    a = LoaderSim(make, "A")
    a.world.timed = lambda j: False
    ref = run(a, T)
    i = ctx.pick("sample", 0, T - 1)
    b = a if ctx.bool("same loader") else LoaderSim(make, "B")
    got = b.restore_sample(ref[i].__restore_key__)
    ctx.check(same(ref[i], got), "restore_sample", lambda: show([ref[i], got]))
    for j in range(i):
        ctx.check(ref[j].__restore_key__ != ref[i].__restore_key__, "restore_key_unique")
    ctx.reach("restored")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("saved with samples",), weight=3, seconds=700):
        out.append(dict(name=name, fn=fn, bounds=bounds, reach=reach, weight=weight, seconds=seconds))

    for name, nw, T, k, timed, modes in (
            ("nw=1 times", 1, 8, 5, None, ("once",)),
            ("nw=1", 1, 5, 3, (), ("twice",)),
            ("nw=1 earlier save", 1, 6, 4, (), ("earlier",)),
            ("nw=2", 2, 5, 3, (), ("once", "twice")),
            ("nw=2 times", 2, 6, 4, (1,), ("once",)),
            ("nw=2 earlier save", 2, 5, 3, (), ("earlier",)),
            ("nw=3", 3, 5, 3, (), ("once",)),
            ("nw=3 twice", 3, 5, 2, (), ("twice",))):
        add(name, lambda c, nw=nw, T=T, k=k, timed=timed, modes=modes: h_law(
            c, nw, T, True, [50] * nw, k, timed=timed, modes=modes, ahead=2 if nw < 3 else 1),
            f"{nw} workers, saves after 0..{k} samples, {T} samples, every prefetch lead at every save",
            reach=("saved with samples", "saved without samples") + (
                ("restored twice",) if "twice" in modes else ()), weight=10)
    for nw, L, T in ((1, 1, 5), (1, 2, 6), (1, 3, 8), (0, 2, 6)):
        add(f"epochs of {L} nw={nw}", lambda c, nw=nw, L=L, T=T: h_epochs(c, nw, L, T, list(range(T - 1)), timed=None),
            f"{nw} workers, epochs of {L} samples, {T} events, every save point", reach=("saved",), weight=5)
    for nw, L, T in ((2, 1, 5), (2, 2, 6), (2, 3, 8), (2, 4, 9), (3, 2, 6)):
        add(f"between epochs of {L} nw={nw}", lambda c, nw=nw, L=L, T=T: h_epochs(c, nw, L, T, [i for i in range(T - 1) if i % (L + 1) == 0]),
            f"{nw} workers, epochs of {L} samples, {T} events, saves between the epochs", reach=("saved",), weight=5)
    for nw, L in ((2, 3), (2, 4), (2, 5), (3, 5)):
        # every worker has samples left in its epoch
        ks = [k for k in range(1, L) if all((k - 1 - w) // nw < (L - 1 - w) // nw for w in range(nw))]
        add(f"inside epochs of {L} nw={nw}", lambda c, nw=nw, L=L, ks=ks: h_epochs(c, nw, L, 2 * L + 2, ks + [L + 1 + k for k in ks]),
            f"{nw} workers, 2 epochs of {L} samples, saves before the last round of an epoch", reach=("saved",), weight=5)
    for ws, group in ((1, None), (2, None), (2, (1, 3)), (3, None), (3, (0, 2, 3))):
        if not q or ws < 3 or group:
            add(f"{ws} ranks {group or 'world'}", lambda c, ws=ws, group=group: h_distributed(c, ws, group),
                f"{ws} ranks, 0-2 samples each, any rank saved on and restored from", reach=("everywhere", "from one rank"), weight=5)
    for nw in (0, 1, 2):
        add(f"not distributed nw={nw}", lambda c, nw=nw: h_single(c, nw), f"{nw} workers, saves after 0-3 samples", reach=("restored",))
    add("next epoch's order", lambda c: h_epochs(c, 2, 4, 10, [1], exact=True), "2 workers, 2 epochs of 4 samples, saved after the first sample",
        reach=("saved",))
    add("last round of an epoch", lambda c: h_epochs(c, 2, 4, 6, [3], exact=True), "2 workers, epochs of 4 samples, saved after the third sample",
        reach=("saved",))
    add("nw=0", lambda c: h_law(c, 0, 6, False, [50], 4), "no workers, saves after 0..4 samples")
    for nw, rank, ws in ((0, 0, 1), (0, 1, 2), (1, 1, 2), (2, 0, 2), (2, 1, 2), (3, 0, 1)):
        add(f"restore keys nw={nw} rank {rank} of {ws}",
            lambda c, nw=nw, rank=rank, ws=ws: h_keys(c, nw, 6, [2] * max(nw, 1), rank, ws),
            "6 samples", reach=("restored",), weight=1)
    return out
