"""Environment models shared by the harnesses (identical in symbolic and in concrete replay runs).

* randomness: `torch.Generator`, `torch.randint`, `torch.randperm`, `torch.multinomial` are replaced
  by an uninterpreted function of (seed, number of draws so far, kind, arguments): every value the
  real generator could return is covered, equal generator states give equal draws.
* worker processes: `torch.utils.data.get_worker_info` returns the simulated worker.
* `ListSource`: an inner dataset that keeps the dataset contract itself (payloads symbolic).
* `Sim`: one worker process iterating one dataset instance, epoch after epoch.
"""

import copy
import dataclasses
import random as _pyrandom
from dataclasses import dataclass
from typing import Any

import torch
import torch.utils.data

from megatron.energon.flavors.base_dataset import MergedState, Sample, SavableDataset, State
from megatron.energon.worker import WorkerConfig

from . import engine
from .engine import HarnessError, SymBool, SymInt, vand

_real_tensor = torch.tensor


# ------------------------------------------------------------------------------ randomness


class FakeGenerator:
    """seed and number of draws; the state is their 16 byte encoding"""

    def __init__(self, device="cpu"):
        self.seed_ = 0xFFFFFFFF00
        self.n = 0

    def manual_seed(self, s):
        self.seed_, self.n = int(s), 0
        return self

    def initial_seed(self):
        return self.seed_

    def get_state(self):
        return torch.frombuffer(
            bytearray(self.seed_.to_bytes(8, "big") + self.n.to_bytes(8, "big")), dtype=torch.uint8
        ).clone()

    def set_state(self, t):
        b = bytes(t.tolist())
        if len(b) != 16:
            raise RuntimeError("RNG state is wrong size")
        self.seed_ = int.from_bytes(b[:8], "big")
        self.n = int.from_bytes(b[8:], "big")
        return self

    def draw(self, kind, options):
        name = f"rng.{self.seed_ % 9973}.{self.n}.{kind}"
        self.n += 1
        return engine.cur().choose(name, options)


_orig = dict(Generator=torch.Generator, randint=torch.randint, randperm=torch.randperm,
             multinomial=torch.multinomial)


def _randint(*a, generator=None, **k):
    if not isinstance(generator, FakeGenerator):
        return _orig["randint"](*a, generator=generator, **k)
    a = list(a)
    if "low" in k:
        a.insert(0, k.pop("low"))
    if "high" in k:
        a.append(k.pop("high"))
    size = k.pop("size", None)
    if size is None:
        size = a.pop()
    low, high = (0, a[0]) if len(a) == 1 else a
    low, high = int(low), int(high)
    if high <= low:
        raise RuntimeError(f"random_ expects 'from' to be less than 'to', but got from={low} >= to={high}")
    cnt = 1
    for s in size:
        cnt *= s
    vals = [generator.draw(f"i{low}_{high}", range(low, high)) for _ in range(cnt)]
    return _real_tensor(vals, dtype=torch.int64).reshape(tuple(size))


def _randperm(n, *, generator=None, **k):
    if not isinstance(generator, FakeGenerator):
        return _orig["randperm"](n, generator=generator, **k)
    n = int(n)
    rest = list(range(n))
    out = []
    for j in range(n - 1):
        x = generator.draw(f"p{n}_{j}", rest)
        rest.remove(x)
        out.append(x)
    return _real_tensor(out + rest, dtype=torch.int64)


def _multinomial(probs, num_samples, replacement=False, *, generator=None):
    if not isinstance(generator, FakeGenerator):
        return _orig["multinomial"](probs, num_samples, replacement, generator=generator)
    opts = [i for i, p in enumerate(probs.tolist()) if p > 0]
    if not opts or any(p < 0 or p != p for p in probs.tolist()):
        raise RuntimeError("invalid multinomial distribution")
    if not replacement and num_samples > 1:
        raise HarnessError("multinomial without replacement")
    key = ",".join(f"{p:.4f}" for p in probs.tolist())
    return _real_tensor([generator.draw(f"m{key}", opts) for _ in range(num_samples)])


# ------------------------------------------------------------------------------ workers


@dataclass
class WInfo:
    id: int
    num_workers: int
    seed: int = 0
    dataset: Any = None


_worker = None


def _get_worker_info():
    return _worker


class in_worker:
    """code inside runs in worker `wid` of `nw` worker processes (nw=0: no worker processes)"""

    def __init__(self, wid, nw):
        self.info = WInfo(wid, nw) if nw > 0 else None

    def __enter__(self):
        global _worker
        self.prev = _worker
        _worker = self.info

    def __exit__(self, *a):
        global _worker
        _worker = self.prev


def reset():
    """process-global state of the code under test back to that of a fresh process"""
    global _worker
    _worker = None
    WorkerConfig.worker_id_offset = 0
    WorkerConfig._sample_index_stack = None
    WorkerConfig.active_worker_config = None
    WorkerConfig._worker_override_global_rank = None


def patch():
    torch.Generator = FakeGenerator
    torch.randint = _randint
    torch.randperm = _randperm
    torch.multinomial = _multinomial
    torch.utils.data.get_worker_info = _get_worker_info


patch()


# ------------------------------------------------------------------------------ samples


@dataclass
class VS(Sample):
    """a sample with a symbolic payload; `uid` names the source sample"""

    value: Any
    uid: str


@dataclass
class VB(Sample):
    """an output of a user function: payloads of the inputs, and the sample index it saw"""

    value: Any
    uid: str
    seen_index: Any


def same(a, b):
    """equality of two output structures: bool or SymBool"""
    if a is b:
        return True
    if hasattr(a, "__vt_same__"):
        return a.__vt_same__(b)
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        r = a == b
        return False if r is NotImplemented else r
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        rs = [same(x, y) for x, y in zip(a, b)]
    elif isinstance(a, dict):
        if a.keys() != b.keys():
            return False
        rs = [same(a[k], b[k]) for k in a]
    elif dataclasses.is_dataclass(a):
        rs = [same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a)]
    else:
        return a == b
    if any(r is False for r in rs):
        return False
    return vand(*rs)


END = "<end of epoch>"


class SrcState(State):
    pass


@dataclass
class ListSourceState(State):
    epoch: int
    offset: int


@dataclass
class ListSourceMergedState(MergedState):
    epoch: list
    offset: list


class ListSource(SavableDataset):
    """n[w] samples per epoch for worker w; a different payload for every (worker, epoch, index)
    unless `same_epochs`."""

    def __init__(self, wc, name, n, same_epochs=False, epochs=None):
        super().__init__(wc)
        self.name = name
        self.n = n
        self.same_epochs = same_epochs
        nw = max(wc.num_workers, 1)
        self._epoch = [0] * nw
        self._offset = [0] * nw

    def __len__(self):
        return sum(self.n)

    def sample(self, w, e, i):
        if self.same_epochs:
            e = 0
        uid = f"{self.name}.w{w}.e{e}.i{i}"
        v = engine.cur().int(f"x.{uid}", 0, 1000)
        return VS(__key__=uid, __restore_key__=("ListSource", self.name, w, e, i),
                  __subflavor__=None, __subflavors__=None, value=v, uid=uid)

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        # the position is the iterator's: an iterator outlives a restore only by going on wrongly
        epoch = self._epoch[w]
        for i in range(self._offset[w], self.n[w]):
            self._offset[w] = i + 1
            yield self.sample(w, epoch, i)
        self._offset[w] = 0
        self._epoch[w] = epoch + 1

    def worker_has_samples(self):
        return self.n[self.worker_config.rank_worker_id()] > 0

    def save_state(self):
        w = self.worker_config.rank_worker_id()
        return ListSourceState(epoch=self._epoch[w], offset=self._offset[w])

    def merge_states(self, states):
        assert _worker is None, "Cannot merge in worker process"
        return ListSourceMergedState(
            epoch=[0 if s is None else s.epoch for s in states],
            offset=[0 if s is None else s.offset for s in states])

    def restore_state(self, state):
        nw = max(self.worker_config.num_workers, 1)
        if state is None:
            self._epoch, self._offset = [0] * nw, [0] * nw
        else:
            assert isinstance(state, ListSourceMergedState)
            self._epoch, self._offset = list(state.epoch), list(state.offset)

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass

    def restore_sample(self, key):
        kind, name, w, e, i = key
        if kind != "ListSource" or name != self.name:
            raise HarnessError(f"source {self.name} asked to restore {key}")
        return self.sample(w, e, i)

    def config(self):
        return {"type": "ListSource", "name": self.name}

    def __str__(self):
        return self.name

    __repr__ = __str__


# ------------------------------------------------------------------------------ driver


class Sim:
    """One worker process iterating one dataset instance."""

    def __init__(self, ds, wid, nw, index=0):
        self.ds, self.wid, self.nw, self.index = ds, wid, nw, index
        self.it = None
        self.n = 0

    def step(self):
        with in_worker(self.wid, self.nw):
            try:
                if self.it is None:
                    self.it = iter(self.ds)
                wc = self.ds.worker_config
                wc.worker_activate(self.index)
                try:
                    s = next(self.it)
                    self.index += 1
                    self.n += 1
                except StopIteration:
                    self.it = None
                    s = END
                wc.worker_deactivate()
            except BaseException:
                WorkerConfig._sample_index_stack = None
                WorkerConfig.active_worker_config = None
                WorkerConfig._worker_override_global_rank = None
                raise
        return s

    def run(self, n):
        return [self.step() for _ in range(n)]

    def save(self):
        with in_worker(self.wid, self.nw):
            return self.ds.save_state()


def draining(sim, evs):
    """the source of this epoch has ended, the epoch itself has not"""
    src = sim.ds.vt_source
    return src._offset[sim.wid] == 0 and bool(evs) and evs[-1] is not END


def freeze(ev):
    """snapshot of an event (the code may mutate yielded samples later)"""
    return copy.deepcopy(ev)


def show(evs):
    def one(e):
        if e is END:
            return "END"
        if isinstance(e, (VS, VB)):
            return f"({e.uid} v={e.value!r} rk={e.__restore_key__!r}" + (
                f" idx={e.seen_index!r})" if isinstance(e, VB) else ")")
        return str(e)[:300]
    return " | ".join(one(e) for e in evs)


def match_suffix(ctx, expect, got_step, label, what, maybe_end=True):
    """the events produced by got_step() must be `expect`; one of the ENDs at its head may be
    missing (a save between the last sample of an epoch and its end)"""
    exp = list(expect)
    got = []
    i = 0
    may_drop = maybe_end and bool(exp) and exp[0] is END
    while i < len(exp):
        first = freeze(got_step())
        got.append(first)
        if may_drop and first is not END and exp[i] is END:
            i += 1
            may_drop = False
            if i == len(exp):
                return
        if exp[i] is not END:
            may_drop = False
        ctx.check(same(exp[i], first), label,
                  lambda: f"{what}\n expected {show(exp)}\n got      {show(got)}")
        i += 1


def resume_law(ctx, make, nw, *, epochs=None, horizon=None, w=None, modes=("once", "twice", "others", "fresh", "used", "reset"),
               restore_keys=True, save_ok=None, ref=None, max_k=None,
               fresh_steps=1):
    """Checks, for every save point k: the run goes on undisturbed after the save, and a fresh
    instance restored from the merged state goes on exactly where the run was.

    make(): builds a fresh dataset.  The run is observed for `epochs` epochs or `horizon` events.
    ref(w): expected events of worker w (oracle, optional).
    save_ok(sim, events): False leaves out the save points outside of the instance's bounds.
    modes: once = save, restore; twice = the restored run is saved and restored again;
    others = once, with the states of the other workers present in the merged state;
    fresh = a worker that had no state yet starts from its beginning after the restore;
    used = once, restoring into a dataset which was already iterated (no worker processes only);
    reset = restoring the initial state (None) into a dataset which was already iterated.
    """
    nworkers = max(nw, 1)
    if w is None:
        w = ctx.pick("worker", 0, nworkers - 1)
    mode = ctx.choose("mode", [m for m in modes if m not in (("others", "fresh") if nworkers == 1 else ()) and (m not in ("used", "reset") or nw == 0)])
    if mode in ("others", "fresh"):  # two workers run: a shorter history
        horizon = {"others": 3, "fresh": 1}[mode]
        # ... in which the other workers' user functions take their first outcome
        ctx.prefer = lambda name: ".e" in name and f".w{w}." not in name
    reset()
    u = Sim(make(), w, nw)
    U = []
    while (epochs is None or U.count(END) < epochs) and (horizon is None or len(U) < horizon):
        U.append(freeze(u.step()))
        if len(U) > 200:
            ctx.fail("terminates", "more than 200 events")
    if mode == modes[0]:
        if ref is not None:
            exp = ref(w)
            exp = exp[:len(U)] if horizon is not None else exp
            ctx.check(len(exp) == len(U), "stream",
                      lambda: f"uninterrupted stream\n expected {show(exp)}\n got      {show(U)}")
            match_suffix(ctx, exp, iter(U).__next__, "stream", "uninterrupted stream",
                         maybe_end=False)
        if restore_keys:
            check_restore_keys(ctx, make, w, nw, U)
    if mode == "reset":
        reset()
        ds = make()
        used = Sim(ds, w, nw)
        used.run(ctx.pick("used_for", 1, min(3, len(U))))
        reset()
        ds.restore_state(None)
        match_suffix(ctx, U, Sim(ds, w, nw).step, "reset", "used, then restored to the initial state", maybe_end=False)
        return
    k = ctx.pick("save_at", 0, len(U) - 1 if max_k is None else min(max_k, len(U) - 1))
    reset()
    b = Sim(make(), w, nw)
    match_suffix(ctx, U[:k], b.step, "deterministic", "second run of the same dataset",
                 maybe_end=False)
    if save_ok is not None and not save_ok(b, U[:k]):
        return
    state = b.save()
    index = b.index
    if mode == "once":
        # the saved run continues undisturbed, and does not touch the state it handed out
        match_suffix(ctx, U[k:], b.step, "undisturbed", f"run continued after saving at {k}",
                     maybe_end=False)
    state = copy.deepcopy(state)
    # other workers: never started, or one step ahead
    states = []
    for o in range(nworkers):
        if o == w:
            states.append(state)
        elif mode == "others":
            reset()
            so = Sim(make(), o, nw)
            so.step()
            states.append(copy.deepcopy(so.save()))
        else:
            states.append(None)
    reset()
    merged = copy.deepcopy(make().merge_states(states))
    reset()
    c_ds = make()
    if mode == "used":
        used = Sim(c_ds, w, nw)
        used.run(ctx.pick("used_for", 1, 2))
        used.save()
        reset()
    c_ds.restore_state(merged)
    if mode == "fresh":
        o = (w + 1) % nworkers
        reset()
        f = Sim(make(), o, nw)
        F = [freeze(f.step()) for _ in range(fresh_steps)]
        reset()
        c = Sim(c_ds, o, nw, 0)
        match_suffix(ctx, F, c.step, "not started yet",
                     f"worker {w} saved at {k}; worker {o} was not started", maybe_end=False)
        return
    c = Sim(c_ds, w, nw, index)
    rest = U[k:]
    ctx.reach("restored")
    if mode != "twice":
        match_suffix(ctx, rest, c.step, "resume", f"restored at {k} (worker {w})")
        if mode == "once":
            # the state is not used up: it can be restored again
            reset()
            c_ds = make()
            c_ds.restore_state(merged)
            match_suffix(ctx, rest[:4], Sim(c_ds, w, nw, index).step, "resume", f"restored at {k} (worker {w}), another time")
        return
    # the restored run is saved after j more events and restored once more
    j = ctx.pick("save_again_after", 0, min(2, len(rest) - 1))
    exp = list(rest)
    before = []
    head = exp[0] is END
    for _ in range(j):
        first = freeze(c.step())
        if head and exp[0] is END and first is not END:
            exp, head = exp[1:], False
        if not exp:
            return
        head = head and exp[0] is END
        before.append(first)
        ctx.check(same(exp[0], first), "resume",
                  lambda: f"restored at {k} (worker {w})\n expected {show(exp)}\n got {show(before)}")
        exp = exp[1:]
    if not exp:
        return
    if j > 0 and head and exp[0] is END:
        return  # several empty epochs in a row: which END was left out is not observable
    if save_ok is not None and not save_ok(c, U[:len(U) - len(exp)]):
        return
    state2 = copy.deepcopy(c.save())
    index2 = c.index
    reset()
    merged2 = copy.deepcopy(make().merge_states([state2 if o == w else None for o in range(nworkers)]))
    reset()
    d_ds = make()
    d_ds.restore_state(merged2)
    d = Sim(d_ds, w, nw, index2)
    ctx.reach("restored_twice")
    match_suffix(ctx, exp, d.step, "resume",
                 f"restored at {k}, saved after {j} more, restored again (worker {w})")


def rk(ev):
    return ev["__restore_key__"] if isinstance(ev, dict) else ev.__restore_key__


def check_restore_keys(ctx, make, w, nw, U):
    """restoring every yielded sample by its restore key, in the main process, gives that sample"""
    reset()
    ds = make()
    if not ds.can_restore_sample():
        return
    with in_worker(w, nw):
        gid = ds.worker_config.global_worker_id()
    seen = []
    for i, ev in enumerate([e for e in U if e is not END]):
        reset()
        wc = ds.worker_config
        wc.worker_activate(i, override_global_rank=gid)
        try:
            got = freeze(ds.restore_sample(rk(ev)))
        finally:
            reset()
        ctx.check(same(ev, got), "restore_sample",
                  lambda: f"sample by restore key\n expected {show([ev])}\n got      {show([got])}")
        for other in seen:
            if rk(other) == rk(ev):
                ctx.check(same(other, ev), "restore_key_unique",
                          lambda: f"one key, two samples {show([other, ev])}")
        seen.append(ev)
