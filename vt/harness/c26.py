"""Joined data sets: every sample is joined with the sample of the same key, exactly once, also after a resume."""

import contextlib
import io
from dataclasses import dataclass
from typing import Any

from megatron.energon import CrudeWebdataset
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.base_dataset import Sample
from megatron.energon.flavors.webdataset.joined_webdataset import JoinedWebdatasetFactory
from megatron.energon.worker import WorkerConfig

from vt import vfs
from vt.env import END, Sim, reset, resume_law, same
from vt.harness.c03 import ASSUMPTIONS as BASE_ASSUMPTIONS
from vt.harness.c03 import add_dataset, check_shuffled, content, simple

ASSUMPTIONS = BASE_ASSUMPTIONS + ["the join method is inner_match, the only one the code has"]
NAMES = "abc"


@dataclass
class One(Sample):
    x: Any
    both: Any


@dataclass
class Two(Sample):
    y: Any
    both: Any


@dataclass
class Three(Sample):
    x: Any
    y: Any
    both: Any


def parts(s):
    return {k: v for k, v in s.items() if not k.startswith("__")}


class OneWeb(CrudeWebdataset):
    def load_sample(self, s):
        return One(s["__key__"], s["__restore_key__"], None, {"of": "a"}, x=parts(s), both="a")


class TwoWeb(CrudeWebdataset):
    def load_sample(self, s):
        return Two(s["__key__"], s["__restore_key__"], None, {"of": "b"}, y=parts(s), both="b")


def join_list(*ss):
    return {"__key__": ss[0]["__key__"], "__restore_key__": (), "parts": [(s["__key__"], parts(s)) for s in ss]}


def join_dict(*, one, two, three=None):
    return join_list(*[s for s in (one, two, three) if s is not None])


def data(nds, sizes, *, symbolic=True, exclude=(), break_=None, junk=True):
    """nds data sets of the same sample keys, with different parts, sizes and other members"""
    fs = vfs.new()
    vfs.patch()
    shards = {}
    for d in range(nds):
        sh = {f"s{i}.tar": simple(n, 1 + (i + d) % 2, prefix=f"k{i}_", junk=junk and (i + d) % 2 == 1) for i, n in enumerate(sizes)}
        if break_ is not None and d == nds - 1:
            break_(sh)
        add_dataset(fs, f"/vtfs/{NAMES[d]}", sh, symbolic=symbolic, exclude=exclude)
        shards[d] = sh
    return fs, shards


def factory(nds, wc, *, training, how="list", handler=None, max_seq=None, **k):
    cls = dict(sample=[OneWeb, TwoWeb]).get(how, [CrudeWebdataset] * 3)
    h = {} if handler is None else dict(handler=handler)
    inner = [cls[d](EPath(f"/vtfs/{NAMES[d]}"), split_part="train", training=training, worker_config=wc, auto_decode=False, **h)
             for d in range(nds)]
    if how == "dict":
        inner = dict(zip(["one", "two", "three"], inner))
    joiner = dict(list=join_list, dict=join_dict, sample=Three)[how]
    return JoinedWebdatasetFactory(inner, training=training, worker_config=wc, joiner=joiner, max_samples_per_sequence=max_seq, **h, **k)


def build(*a, rotation=0, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return factory(*a, **k).build(rotation)


def expected(fs, shards, how="list", exclude=()):
    """joined content by (shard, index)"""
    each = [content(fs, f"/vtfs/{NAMES[d]}", shards[d], exclude) for d in shards]
    out = {}
    for k in each[0]:
        if how == "sample":
            out[k] = (each[0][k]["__key__"], parts(each[0][k]), parts(each[1][k]))
        else:
            out[k] = (each[0][k]["__key__"], [(e[k]["__key__"], parts(e[k])) for e in each])
    return out


def seen(ev, how):
    if how == "sample":
        return (ev.__key__, ev.x, ev.y)
    return (ev["__key__"], [(k, dict(p)) for k, p in ev["parts"]])


def check_joined(ctx, exp, ev, how):
    got = seen(ev, how)
    who = [k for k, v in exp.items() if v[0] == got[0]]
    ctx.check(len(who) == 1, "source", lambda: f"{got[0]} not in the data set")
    ctx.check(same(exp[who[0]], got), "joined", lambda: f"sample {who[0]}: expected {exp[who[0]]} got {got}")
    if how == "sample":
        ctx.check(ev.both == "b" and ev.__subflavors__ == {"of": "a"}, "joined", lambda: f"{ev}")
    return who[0]


def h_epoch(ctx, nds, sizes, nw, ws, *, training, how="list", shuffle=1, par=1, epochs=1, max_seq=None, rot=0, excl=False):
    reset()
    exclude = ()
    if excl:
        fs, shards = data(nds, sizes, symbolic=False)
        keys = [v[0] for v in expected(fs, shards).values()]
        exclude = tuple(k for k in keys if ctx.bool(f"exclude {k}"))
        ctx.assume(len(exclude) < len(keys))
    fs, shards = data(nds, sizes, symbolic=len(sizes) < 3, exclude=exclude)
    exp = expected(fs, shards, how, exclude)
    all_ = expected(fs, shards, how)
    owned = []
    for r in range(ws):
        for w in range(max(nw, 1)):
            reset()
            wc = WorkerConfig(rank=r, world_size=ws, num_workers=nw)
            with contextlib.redirect_stdout(io.StringIO()):
                f = factory(nds, wc, training=training, how=how, shuffle_over_epochs=shuffle, parallel_shard_iters=par, max_seq=max_seq)
                ctx.check(len(f) == sum(sizes), "length", lambda: f"{f.__len__()}")
                ds = f.build(rot)
            pieces = [(p[0].name, list(range(p[0].offset, p[0].offset + p[0].count))) for p in ds.dataset.shards[w]]
            mine = [(n, i) for n, ix in pieces for i in ix]
            owned += mine
            sim = Sim(ds, w, nw)
            for ep in range(epochs):
                got = []
                left = [k for k in mine if k in exp]
                for _ in range(len(left) * (shuffle if training else 1) + (0 if training and mine else 1)):
                    ev = sim.step()
                    if ev is END:
                        break
                    got.append(check_joined(ctx, exp, ev, how))
                if training:
                    if mine and not excl:
                        check_shuffled(ctx, got, pieces, shuffle, par, True)
                else:
                    ctx.check(got == left and ev is END, "order", lambda: f"expected {left} got {got}")
    ctx.check(sorted(owned) == sorted(all_), "partition", lambda: f"{sorted(owned)} of {sorted(all_)}")
    ctx.reach("all workers")


def h_resume(ctx, nds, sizes, nw, *, training, how="list", shuffle=1, par=1, epochs=None, horizon=None, max_seq=None,
             rank=(0, 1), symbolic=True, excl=False, **k):
    exclude = ()
    if excl:
        fs, shards = data(nds, sizes, symbolic=False)
        keys = [v[0] for v in expected(fs, shards).values()]
        exclude = tuple(k for k in keys if ctx.bool(f"exclude {k}"))
        ctx.assume(len(exclude) < len(keys))
    fs, shards = data(nds, sizes, symbolic=symbolic, exclude=exclude)

    def make():
        wc = WorkerConfig(rank=rank[0], world_size=rank[1], num_workers=nw)
        ds = build(nds, wc, training=training, how=how, shuffle_over_epochs=shuffle, parallel_shard_iters=par, max_seq=max_seq)
        ctx.check(ds.can_restore_sample(), "restorable", "joined samples cannot be restored")
        return ds

    resume_law(ctx, make, nw, epochs=epochs, horizon=horizon, **k)


def h_mismatch(ctx, nds, n, kind, ignoring):
    """one sample of the last data set has another key (or they are in another order): never joined with another one"""
    reset()
    at = ctx.pick("at", 0, n - 1)
    other = ctx.pick("other", 0, n - 1) if kind == "order" else None
    if kind == "order":
        ctx.assume(other != at)

    def break_(sh):
        ms = sh["s0.tar"]
        by = [[m for m in ms if base(m) == i] for i in range(n)]
        if kind == "key":
            by[at] = [(m.replace("k0_", "x0_"), r) for m, r in by[at]]
        elif kind == "order":
            by[at], by[other] = by[other], by[at]
        elif kind == "extra":  # another sample more at this place, the last one is gone
            by = by[:at] + [[("k0_new.p0", True)]] + by[at:-1]
        sh["s0.tar"] = [m for g in by for m in g]

    def base(m):
        return int(m[0].split("_")[1].split(".")[0])

    fs, shards = data(nds, (n,), break_=break_, junk=False)
    good = content(fs, "/vtfs/a", shards[0])
    each = {d: {v["__key__"]: parts(v) for v in content(fs, f"/vtfs/{NAMES[d]}", shards[d]).values()} for d in shards}
    errors = []
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    ds = build(nds, wc, training=False, handler=(lambda e, key: errors.append(key)) if ignoring else None)
    sim = Sim(ds, 0, 0)
    got = []
    failed = None
    for _ in range(n + 1):
        try:
            ev = sim.step()
        except Exception as e:
            failed = e
            break
        if ev is END:
            break
        key = ev["__key__"]
        got.append(key)
        ctx.check(all(k == key for k, _ in ev["parts"]), "joined", lambda: f"{key} is joined with {[k for k, _ in ev['parts']]}")
        ctx.check(len(ev["parts"]) == nds, "joined", lambda: f"{ev}")
        for d, (k, p) in enumerate(ev["parts"]):
            ctx.check(same(each[d].get(key), p), "joined", lambda: f"{key}: part {d} is {p}, expected {each[d].get(key)}")
    keys = [v["__key__"] for v in good.values()]
    first = min(at, other) if other is not None else at
    ctx.check(got[:first] == keys[:first], "order", lambda: f"{got}")
    ctx.check(failed is not None or (ignoring and errors), "mismatch", lambda: f"not reported, got {got}")
    if not ignoring:
        ctx.check(got == keys[:first], "mismatch", lambda: f"went on after it, got {got}")
    ctx.reach("mismatch")


def h_construct(ctx, n_a, n_b, excl):
    """data sets that do not match in their shards, sample counts or excludes are not joined"""
    reset()
    fs = vfs.new()
    vfs.patch()
    cs = {}
    for d, ns in (("a", n_a), ("b", n_b)):
        cs[d] = [ctx.int(f"count.{d}.{i}", 1) for i in range(ns)]
    from megatron.energon.flavors.webdataset.structs import ShardInfo

    class Inner:
        def __init__(self, d):
            self.shards = [ShardInfo(name=f"s{i}.tar", path=EPath(f"/vtfs/{d}/s{i}.tar"), offset=0, count=c) for i, c in enumerate(cs[d])]
            self.sample_excludes = {"s0.tar/0"} if excl and d == "b" else set()

    ok = n_a == n_b and not excl and all(bool(x == y) for x, y in zip(cs["a"], cs["b"]))
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    try:
        f = JoinedWebdatasetFactory([Inner("a"), Inner("b")], training=False, worker_config=wc, joiner=join_list)
    except (AssertionError, ValueError):
        f = None
    ctx.check((f is not None) == ok, "construction", lambda: f"counts {cs} excludes differ {excl}: {'joined' if f else 'rejected'}")
    if f is not None:
        ctx.check(f.__len__() == sum(cs["a"]), "length", lambda: f"{f.__len__()}")
        ctx.check(all(len(p) == 2 and p[0].name == p[1].name and [str(x.path) for x in p] == [f"/vtfs/{d}/{p[0].name}" for d in "ab"]
                      for p in f.shards), "pairs", lambda: f"{f.shards}")
    ctx.reach("ok" if ok else "rejected")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach, weight=3, seconds=700):
        out.append(dict(name=name, fn=fn, bounds=bounds, reach=reach, weight=weight, seconds=seconds))

    for name, nds, sizes, nw, ws, kw in (
            ("val", 2, (2, 2), 0, 1, dict(training=False, epochs=2)),
            ("val dict", 2, (2, 1), 0, 1, dict(training=False, how="dict")),
            ("val class", 2, (2, 1), 0, 1, dict(training=False, how="sample")),
            ("val three", 3, (2, 2), 2, 1, dict(training=False, epochs=2)),
            ("val ranks", 2, (3, 4), 2, 2, dict(training=False, max_seq=2, rot=1)),
            ("val excludes", 2, (3,), 0, 1, dict(training=False, excl=True, epochs=2)),
            ("val excludes workers", 2, (4,), 2, 1, dict(training=False, excl=True)),
            ("train", 2, (2, 2), 0, 1, dict(training=True, epochs=2)),
            ("train parallel", 2, (2, 1, 1), 0, 1, dict(training=True, par=2)),
            ("train parallel class", 2, (2, 2), 0, 1, dict(training=True, par=2, how="sample")),
            ("train workers", 3, (2, 2), 2, 1, dict(training=True, par=2, max_seq=1)),
            ("train two epochs shuffled", 2, (1, 1), 0, 1, dict(training=True, shuffle=2, par=1))):
        add("epoch " + name, lambda c, a=(nds, sizes, nw, ws), kw=kw: h_epoch(c, *a, **kw),
            f"{nds} data sets of {sizes} samples, {nw} workers, {ws} ranks, {kw}", ("all workers",))
    for name, nds, sizes, nw, kw in (
            ("val", 2, (2, 2), 0, dict(training=False, epochs=2)),
            ("val class", 2, (2, 1), 0, dict(training=False, epochs=2, how="sample")),
            ("val workers dict", 3, (3,), 2, dict(training=False, epochs=2, how="dict")),
            ("val excludes", 2, (3,), 0, dict(training=False, epochs=1, excl=True)),
            ("val sequences", 2, (3, 2), 1, dict(training=False, epochs=1, max_seq=1, rank=(1, 2))),
            ("train", 2, (2, 1), 0, dict(training=True, horizon=4)),
            ("train parallel", 2, (2, 1), 0, dict(training=True, horizon=3, par=2)),
            ("train workers", 3, (2, 1), 2, dict(training=True, horizon=3)),
            ("train with replacement", 2, (2, 1), 0, dict(training=True, horizon=3, shuffle=-1, how="dict"))):
        if not q and training_more(kw):
            kw = dict(kw, **training_more(kw))
        add("resume " + name, lambda c, a=(nds, sizes, nw), kw=kw: h_resume(c, *a, **kw),
            f"{nds} data sets of {sizes} samples, {nw} workers, {kw}, every save point", ("restored",), weight=5)
    for nds in (2, 3):
        for kind in ("key", "order", "extra"):
            for ign in (False, True):
                add(f"mismatch {kind} {nds}{' ignored' if ign else ''}",
                    lambda c, a=(nds, 3 if q else 4, kind, ign): h_mismatch(c, *a),
                    "one shard, mismatch at any place, symbolic sizes", ("mismatch",))
    for na, nb, ex in ((1, 1, False), (2, 2, False), (2, 1, False), (1, 2, False), (1, 1, True)):
        add(f"construction {na}/{nb}{' excludes' if ex else ''}", lambda c, a=(na, nb, ex): h_construct(c, *a), "any sample counts",
            ("ok", "rejected") if na == nb and not ex else ("rejected",), weight=1)
    return out


def training_more(kw):
    return dict(horizon=kw["horizon"] + 2) if "horizon" in kw else dict(epochs=kw["epochs"] + 1)
