"""Small concrete pipeline tools for the demonstrations (runs the code in ./src)."""
import copy
import os
import sys
from dataclasses import dataclass
from typing import Any

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True
import torch
import torch.utils.data

import megatron.energon
from megatron.energon.flavors.base_dataset import MergedState, Sample, SavableDataset, State
from megatron.energon.worker import WorkerConfig

assert megatron.energon.__file__.startswith(os.getcwd())


@dataclass
class WInfo:
    id: int
    num_workers: int
    seed: int = 0
    dataset: Any = None


CUR = [None]
torch.utils.data.get_worker_info = lambda: CUR[0]


@dataclass
class S(Sample):
    v: Any


def mk(v, key):
    return S(__key__=str(v), __restore_key__=key, __subflavor__=None, __subflavors__=None, v=v)


@dataclass
class SrcState(State):
    e: int
    o: int


@dataclass
class SrcMerged(MergedState):
    e: list
    o: list


class Src(SavableDataset):
    """n[w] samples per epoch and worker, values (name, worker, epoch, index)"""

    def __init__(self, wc, n, name="s"):
        super().__init__(wc)
        self.n, self.name = n, name
        k = max(wc.num_workers, 1)
        self.e, self.o = [0] * k, [0] * k

    def __len__(self):
        return sum(self.n)

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        while self.o[w] < self.n[w]:
            self.o[w] += 1
            v = (self.name, w, self.e[w], self.o[w] - 1)
            yield mk(v, v)
        self.e[w] += 1
        self.o[w] = 0

    def worker_has_samples(self):
        return self.n[self.worker_config.rank_worker_id()] > 0

    def save_state(self):
        w = self.worker_config.rank_worker_id()
        return SrcState(self.e[w], self.o[w])

    def merge_states(self, states):
        return SrcMerged([0 if s is None else s.e for s in states], [0 if s is None else s.o for s in states])

    def restore_state(self, state):
        k = max(self.worker_config.num_workers, 1)
        if state is None:
            self.e, self.o = [0] * k, [0] * k
        else:
            self.e, self.o = list(state.e), list(state.o)

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass

    def restore_sample(self, key):
        return mk(tuple(key), tuple(key))

    def config(self):
        return {}


class Worker:
    def __init__(self, ds, w, nw, index=0):
        self.ds, self.w, self.nw, self.index, self.it = ds, w, nw, index, None

    def _in(self, f):
        CUR[0] = WInfo(self.w, self.nw) if self.nw else None
        try:
            return f()
        finally:
            CUR[0] = None

    def _step(self):
        if self.it is None:
            self.it = iter(self.ds)
        wc = self.ds.worker_config
        wc.worker_activate(self.index)
        try:
            s = next(self.it)
            self.index += 1
            s = copy.deepcopy(s)
        except StopIteration:
            self.it, s = None, None
        wc.worker_deactivate()
        return s

    def run(self, n):
        return [self._in(self._step) for _ in range(n)]

    def save(self):
        return self._in(self.ds.save_state)


def vals(evs):
    return [None if e is None else e.v for e in evs]


def resume(make, w, nw, k, m, others=()):
    """(what the uninterrupted run yields after event k, what the restored run yields)"""
    a = Worker(make(), w, nw)
    ref = a.run(k + m)[k:]
    b = Worker(make(), w, nw)
    b.run(k)
    st = b.save()
    states = [None] * max(nw, 1)
    states[w] = copy.deepcopy(st)
    for o, ko in others:
        c = Worker(make(), o, nw)
        c.run(ko)
        states[o] = copy.deepcopy(c.save())
    ds = make()
    ds.restore_state(copy.deepcopy(make().merge_states(states)))
    return vals(ref), vals(Worker(ds, w, nw, b.index).run(m))
