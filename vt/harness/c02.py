"""Worker identity, sample indices and restorable randomness."""

import random

import numpy
import torch

from megatron.energon.rng import SystemRng, WorkerRng
from megatron.energon.task_encoder.base import TaskEncoder, stateless
from megatron.energon.worker import WorkerConfig

from vt.engine import vand, vnot, vor
from vt.env import in_worker, reset

ASSUMPTIONS = [
    "the three global random generators are counters of draws since they were seeded (equal seed and position: equal draw)",
    "the 32 bit hashes of different (worker, index) pairs are compared for the enumerated pairs only",
]


class UserError(Exception):
    pass


class Globals:
    """the global generators of torch, numpy and random, as (seed, position)"""

    LIBS = ("torch", "numpy", "random")
    NAMES = ((torch, ("manual_seed", "get_rng_state", "set_rng_state")),
             (numpy.random, ("seed", "get_state", "set_state")),
             (random, ("seed", "getstate", "setstate")))

    def __init__(self, seed):
        self.s = [(f"{seed}.{lib}", 0) for lib in self.LIBS]

    def _seed(self, i, s):
        self.s[i] = (int(s), 0)

    def _set(self, i, s):
        self.s[i] = s

    def draw(self, i):
        seed, n = self.s[i]
        self.s[i] = (seed, n + 1)
        return (self.LIBS[i], seed, n)

    def __enter__(self):
        self.saved = [[getattr(m, n) for n in ns] for m, ns in self.NAMES]
        for i, (m, ns) in enumerate(self.NAMES):
            for n, f in zip(ns, (lambda s, i=i: self._seed(i, s), lambda i=i: self.s[i],
                                 lambda s, i=i: self._set(i, s))):
                setattr(m, n, f)
        return self

    def __exit__(self, *a):
        for (m, ns), fs in zip(self.NAMES, self.saved):
            for n, f in zip(ns, fs):
                setattr(m, n, f)


def encoder(ctx, g, gen):
    """a fresh process' task encoder; returns the draws its function makes"""
    seen = []

    if gen:
        class Enc(TaskEncoder):
            @stateless(restore_seeds=True)
            def encode_sample(self, x):
                for j in range(ctx.choose(f"outputs.{x}", [0, 1, 2])):
                    seen.append([g.draw(i) for i in range(3)] + [self.current_sample_index])
                    yield (x, j)
                if ctx.bool(f"fails.{x}"):
                    seen.append([g.draw(0)])
                    raise UserError()
    else:
        class Enc(TaskEncoder):
            @stateless(restore_seeds=True)
            def encode_sample(self, x):
                for j in range(ctx.choose(f"draws.{x}", [1, 2])):
                    seen.append([g.draw(i) for i in range(3)] + [self.current_sample_index])
                if ctx.bool(f"fails.{x}"):
                    raise UserError()
                return x

    return Enc(), seen


def call(ctx, g, te, seen, x, gen, consume):
    """one call; the caller's own draws in between must not notice; returns the function's draws"""
    before = [tuple(s) for s in g.s]
    n = [0]

    def outer(what):
        now = [g.draw(i) for i in range(3)]
        exp = [(lib, s, k + n[0]) for lib, (s, k) in zip(g.LIBS, before)]
        ctx.check(now == exp, "outer state", lambda: f"{what}: the caller's generators moved: {now}, expected {exp}")
        n[0] += 1

    del seen[:]
    try:
        r = te.encode_sample(x)
        if gen:
            r = iter(r)
            outer("before the first output")
            for _ in range(consume):
                try:
                    next(r)
                except StopIteration:
                    break
                outer("after an output")
                if ctx.bool(f"extra.{x}"):
                    outer("later")
            if hasattr(r, "close"):
                r.close()
    except UserError:
        pass
    outer("after the call")
    return [list(s) for s in seen]


def h_seeds(ctx, nw, ws, gen, seed_offset=0):
    r = ctx.pick("rank", 0, ws - 1)
    w = ctx.pick("worker", 0, max(nw, 1) - 1)
    i = ctx.pick("index", 0, 1)
    w2 = ctx.pick("worker2", 0, max(nw, 1) - 1)
    i2 = ctx.pick("index2", 0, 2)
    consume = ctx.pick("consume", 1, 3) if gen else 0
    nested = w2 == 0 and i2 == 0

    def wc():
        return WorkerConfig(rank=r, world_size=ws, num_workers=nw, seed_offset=seed_offset)

    # the worker's process, which may have run the function before
    reset()
    with Globals("worker") as g, in_worker(w, nw):
        te, seen = encoder(ctx, g, gen)
        c = wc()
        gid = c.global_worker_id()
        if ctx.bool("ran before"):
            c.worker_activate(7)
            call(ctx, g, te, seen, "z", gen, consume)
            c.worker_deactivate()
        if nested:
            # the sample's own index within a batch
            c.worker_activate(i + 5)
            c.worker_push_sample_index(i)
        else:
            c.worker_activate(i)
        exp = call(ctx, g, te, seen, "x", gen, consume)
        if nested:
            c.worker_pop_sample_index()
        c.worker_deactivate()
    # the main process, which restores another sample first
    reset()
    with Globals("main") as g:
        te, seen = encoder(ctx, g, gen)
        with in_worker(w2, nw):
            gid2 = wc().global_worker_id()
        c = wc()
        c.worker_activate(i2, override_global_rank=gid2)
        other = call(ctx, g, te, seen, "x", gen, consume)
        c.worker_deactivate()
        c.worker_activate(i, override_global_rank=gid)
        got = call(ctx, g, te, seen, "x", gen, consume)
        c.worker_deactivate()
    ctx.check(got == exp, "restored randomness", lambda: f"in the worker {exp}, restored {got}")
    if exp and (w, i) != (w2, i2):
        ctx.check(other[0][0] != exp[0][0], "different samples", lambda: f"{(w, i)} and {(w2, i2)} draw {exp} {other}")
    ctx.reach("restored")


def h_ids(ctx, nw, pushes):
    """two positions of any two workers of any two ranks"""
    ids = []
    for k in "ab":
        rank = ctx.int(f"rank.{k}", 0)
        w = ctx.int(f"worker.{k}", 0, max(nw, 1) - 1)
        off = ctx.int(f"offset.{k}", 0, max(nw, 1) - 1) if nw else 0
        idx = ctx.int(f"index.{k}", 0)
        inner = ctx.int(f"inner.{k}", 0)
        reset()
        c = WorkerConfig(rank=rank, world_size=rank + 1, num_workers=nw)
        with in_worker(w, nw):
            WorkerConfig.worker_id_offset = off
            lw, gw = c.rank_worker_id(), c.global_worker_id()
            c.worker_activate(idx)
            b = c.active_worker_batch_index
            ctx.check(c.active_worker_sample_index == b, "index", "outermost sample index is the batch index")
            if pushes:
                c.worker_push_sample_index(inner)
                s = c.active_worker_sample_index
                ctx.check(c.active_worker_batch_index == b, "index", "pushing a sample index leaves the batch index")
                c.worker_pop_sample_index()
                ctx.check(c.active_worker_sample_index == b, "index", "popping restores the index")
            else:
                s, inner = b, idx
            c.worker_deactivate()
            ctx.check(WorkerConfig.active_worker_config is None, "index", "deactivated")
        reset()
        ctx.check(vand(0 <= lw, lw < max(nw, 1)), "worker id", f"local worker id within 0..{nw}")
        # the main process restores a sample of that worker
        c = WorkerConfig(rank=rank, world_size=rank + 1, num_workers=nw)
        c.worker_activate(idx, override_global_rank=gw)
        ctx.check(vand(c.global_worker_id() == gw, c.rank_worker_id() == lw), "restored worker", "same worker")
        if pushes:
            c.worker_push_sample_index(inner)
        ctx.check(c.active_worker_sample_index == s, "restored worker", "same sample index")
        ctx.check(c.active_worker_batch_index == b, "restored worker", "same batch index")
        if pushes:
            c.worker_pop_sample_index()
        c.worker_deactivate()
        reset()
        ids.append((rank, lw, gw, s, b, inner, idx, w, off))
    (ra, la, ga, sa, ba, ia, xa, wa, oa), (rb, lb, gb, sb, bb, ib, xb, wb, ob) = ids
    if nw:
        ctx.check(vor(ga != gb, vand(ra == rb, la == lb)), "global id", "two workers with one global id")
    ctx.check(vor(sa != sb, vand(la == lb, ia == ib)), "sample index", "two samples of one rank with one index")
    ctx.check(vor(ba != bb, vand(la == lb, xa == xb)), "batch index", "two batches of one rank with one index")
    ctx.check(vor(vnot(la == lb), vnot(ia < ib), sa < sb), "sample index", "index does not increase")
    if nw:
        ctx.check(vor(vnot(oa == ob), wa == wb, la != lb), "worker id", "two processes act as one worker")
    ctx.reach("ids")


def h_rng(ctx, nw, ws):
    """the generators of all workers: seeds differ, depend on the configuration only"""
    seeds = {}
    for off in (0, 1):
        for r in range(ws):
            for w in range(max(nw, 1)):
                reset()
                c = WorkerConfig(rank=r, world_size=ws, num_workers=nw, seed_offset=off)
                with in_worker(w, nw):
                    a = WorkerRng(c).rng.initial_seed()
                    WorkerConfig.worker_id_offset = k = ctx.pick(f"offset.{off}.{r}.{w}", 0, max(nw, 1) - 1)
                with in_worker((w - k) % max(nw, 1), nw):
                    b = WorkerRng(WorkerConfig(rank=r, world_size=ws, num_workers=nw, seed_offset=off)).rng.initial_seed()
                ctx.check(a == b, "seed", lambda: f"worker {w} of rank {r}: {a} and {b} depending on the process")
                ctx.check(a not in seeds, "seed", lambda: f"{(off, r, w)} and {seeds[a]} have one seed")
                ctx.check(a == c.worker_seed(w) if nw else True, "seed", "seed computed in the main process")
                seeds[a] = (off, r, w)
    reset()
    ctx.reach("seeds")


IDS = (0, 1, 2, 11, 12, 21, 112)


def h_pairs(ctx, what):
    """different (worker, offset) or (worker seed, index) pairs have different seeds, equal ones the same"""
    a, b, c, d = [ctx.choose(n, list(IDS)) for n in ("first.0", "second.0", "first.1", "second.1")]
    reset()

    def seed(x, y):
        if what == "worker":
            return WorkerConfig(rank=x, world_size=x + 1, num_workers=0, seed_offset=y).worker_seed()
        SystemRng.seed_args(x, y)
        return (random.random(), numpy.random.randint(1 << 30), torch.randint(1 << 30, ()).item())

    old = SystemRng.save_state()
    try:
        s, t = seed(a, b), seed(c, d)
    finally:
        SystemRng.restore_state(old)
    ctx.check((s == t) == ((a, b) == (c, d)), "seed", lambda: f"{(a, b)} has seed {s}, {(c, d)} has {t}")
    ctx.reach("pairs")


def h_worker_rng(ctx, nw, n):
    """a worker's generator saved and restored anywhere in a run of draws"""
    reset()
    w = ctx.choose("worker", list(range(max(nw, 1))))
    ops = [ctx.choose(f"op.{i}", ["below", "choice", "probs", "shuffle", "pop"]) for i in range(n)]
    k = ctx.choose("saved after", list(range(n + 1)))
    again = ctx.choose("saved again after", list(range(n - k + 1)))
    others = ctx.choose("other workers", ["none", "missing", "own"]) if nw > 1 else "none"

    def wc():
        return WorkerConfig(rank=0, world_size=1, num_workers=nw)

    def draw(rng, op):
        if op == "below":
            return rng.randbelow(2)
        if op == "choice":
            return rng.choice(list("ab"))
        if op == "probs":
            return rng.choice(list("ab"), torch.ones(2))
        if op == "shuffle":
            r = rng.shuffle([0, 1])
            ctx.check(sorted(r) == [0, 1], "draws", lambda: f"shuffled to {r}")
            return r
        l = [0, 1]
        r = rng.rand_pop(l)
        ctx.check(sorted(l + [r]) == [0, 1], "draws", lambda: f"popped {r} of 0, 1, left {l}")
        return r, l

    with in_worker(w, nw):
        a = WorkerRng(wc())
        exp = []
        for i, op in enumerate(ops):
            if i == k:
                state = a.save_state()
            exp.append(draw(a, op))
        if k == n:
            state = a.save_state()
        plain = WorkerRng(wc())
        ctx.check([draw(plain, op) for op in ops] == exp, "draws", "saving changes the draws")
        states = [None if others == "missing" else state] * max(nw, 1)
        if others == "own":
            states = []
            for v in range(nw):
                with in_worker(v, nw):
                    r = WorkerRng(wc())
                    r.randbelow(2)
                    states.append(r.save_state())
        states[w] = state
    used = ctx.bool("used before")
    b = WorkerRng(wc())
    if used:
        with in_worker(w, nw):
            b.randbelow(2)
    merged = WorkerRng(wc()).merge_states(states)
    b.restore_state(merged)
    with in_worker(w, nw):
        got = []
        for i, op in enumerate(ops[k:]):
            if i == again:
                break
            got.append(draw(b, op))
        c = WorkerRng(wc())
        c.restore_state(WorkerRng(wc()).merge_states([b.save_state() if v == w else None for v in range(max(nw, 1))]))
        got += [draw(c, op) for op in ops[k + again:]]
        ctx.check(got == exp[k:], "restored draws", lambda: f"{ops} saved after {k}, again after {again}: {got}, expected {exp[k:]}")
    # a worker without a saved state starts from its seed, and so does one that is restored to its beginning
    with in_worker(w, nw):
        for st in (None, WorkerRng(wc()).merge_states([None] * max(nw, 1)),
                   WorkerRng(wc()).merge_states([None if v == w else state for v in range(max(nw, 1))]),
                   WorkerRng(wc()).merge_states([WorkerRng(wc()).save_state() if v == w else state for v in range(max(nw, 1))])):
            b.restore_state(st)
            ctx.check([draw(b, op) for op in ops] == exp, "restored draws", "restored to the beginning")
    reset()
    ctx.reach("restored")


def h_eq(ctx):
    """configurations are equal exactly if rank, world size and number of workers are"""
    v = [[ctx.int(f"{n}.{k}", 0) for n in ("rank", "world", "workers")] for k in "ab"]
    a, b = [WorkerConfig(rank=x[0], world_size=x[1], num_workers=x[2], seed_offset=i) for i, x in enumerate(v)]
    e = a == b
    ctx.check(e == vand(*[x == y for x, y in zip(*v)]) if not isinstance(e, bool) else
              (vand(*[x == y for x, y in zip(*v)]) if e else vnot(vand(*[x == y for x, y in zip(*v)]))),
              "equality", "equal iff rank, world size and workers are")
    ctx.check(not (a == "x") and a != None, "equality", "a configuration does not equal another object")  # noqa: E711
    ctx.reach("compared")


def instances(tier):
    q = tier == "quick"
    out = [dict(name="equality", fn=h_eq, bounds="any two configurations", reach=("compared",))]
    for what in ("worker", "sample"):
        out.append(dict(name=f"{what} seeds", fn=lambda c, what=what: h_pairs(c, what),
                        bounds=f"every two pairs of numbers of {IDS}", reach=("pairs",), weight=2))
    for nw, n in ((0, 1), (1, 2), (2, 1)) if q else ((0, 3), (1, 3), (2, 3), (3, 2)):
        out.append(dict(name=f"restored generator nw={nw}", fn=lambda c, nw=nw, n=n: h_worker_rng(c, nw, n),
                        bounds=f"{nw} workers, {n} draws of any kind, saved and saved again after any of them", reach=("restored",), weight=3))
    for nw in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 7, 8):
        for p in (False, True):
            out.append(dict(name=f"ids nw={nw}{' nested' if p else ''}", fn=lambda c, nw=nw, p=p: h_ids(c, nw, p),
                            bounds=f"{nw} workers, any ranks, worker offsets and indices (unbounded)", reach=("ids",)))
    for nw, ws in ((0, 3), (1, 2), (2, 2)) if q else ((0, 4), (1, 3), (2, 2), (3, 1)):
        out.append(dict(name=f"generators nw={nw} ws={ws}", fn=lambda c, nw=nw, ws=ws: h_rng(c, nw, ws),
                        bounds=f"{nw} workers, {ws} ranks, 2 seed offsets", reach=("seeds",)))
    for gen in (False, True):
        for nw, ws in ((0, 2), (2, 1)) if q or gen else ((0, 3), (2, 2), (3, 1)):
            out.append(dict(name=f"{'generator' if gen else 'function'} seeds nw={nw} ws={ws}",
                            fn=lambda c, nw=nw, ws=ws, gen=gen: h_seeds(c, nw, ws, gen),
                            bounds=f"{nw} workers, {ws} ranks, indices 0..2, function draws 1..2 / yields 0..2, may fail",
                            reach=("restored",), weight=5))
    return out
