"""The sample loader: an epoch yields every sample of the worker's pieces exactly once, completely and in order."""

import contextlib
import io
import random

from megatron.energon import CrudeWebdataset
from megatron.energon.epathlib import EPath
from megatron.energon.worker import WorkerConfig

from vt import vfs
from vt.env import END, Sim, freeze, reset, rk, same, show

ASSUMPTIONS = [
    "files and tarfile are modelled (vt/vfs.py): headers of 512 bytes, padded data, symbolic member sizes; the index "
    "file holds the offset of every sample's first member and the end of the last member (checked to be what prepare "
    "writes in C17)",
    "random draws are an uninterpreted function of the generator state",
]


def base_of(name):
    """the sample a member belongs to (None: not part of a sample)"""
    stem = name.rsplit("/", 1)[-1]
    top = name.split("/")[0]
    if "." not in stem or stem.startswith(".") or (top.startswith("__") and top.endswith("__")):
        return None
    return name[: len(name) - len(stem)] + stem.split(".")[0]


def add_dataset(fs, root, shards, *, split=None, exclude=(), symbolic=True):
    """shards: {name: [(member name, regular)]}; writes tar, index, meta files"""
    counts = {}
    for name, members in shards.items():
        t = fs.add(vfs.Tar(f"{root}/{name}", members, tag=name if symbolic else None))
        idx = vfs.sample_index(t, base_of)
        counts[name] = len(idx) - 1
        fs.add(vfs.Words(f"{root}/{name}.idx", idx))
    fs.text(f"{root}/.nv-meta/.info.yaml",
            "shard_counts:\n" + "".join(f"  {n}: {c}\n" for n, c in counts.items()))
    fs.text(f"{root}/.nv-meta/split.yaml",
            f"split_parts:\n  train: [{', '.join(repr(s) for s in split or shards)}]\nexclude: [{', '.join(repr(e) for e in exclude)}]\n")
    return counts


def simple(n, parts=1, prefix="", junk=False):
    out = []
    for i in range(n):
        if junk and i == 0:
            out.append((f"{prefix}dir", False))
            out.append(("__meta__/x.json", True))
        for p in range(parts):
            out.append((f"{prefix}{i:03d}.p{p}", True))
            if junk and p == 0:
                out.append((f"{prefix}README", True))
    return out


def build(root, wc, *, training, cls=CrudeWebdataset, rotation=0, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        f = cls(EPath(root), split_part="train", training=training, worker_config=wc, auto_decode=False, **k)
        return f.build(rotation)


def content(fs, root, shards, exclude=(), keep=lambda ext: True):
    """expected samples by (shard, index)"""
    out = {}
    for name in shards:
        t = fs.nodes[f"{root}/{name}"]
        cur, idx = None, -1
        for i, (m, reg) in enumerate(t.members):
            b = base_of(m) if reg else None
            if b is None:
                continue
            if b != cur:
                cur, idx = b, idx + 1
                out[(name, idx)] = {"__key__": f"{name}/{b}"}
            ext = m[len(b) + 1:]
            if keep(ext):
                out[(name, idx)][ext] = t.data(i)
    return {k: v for k, v in out.items() if v["__key__"] not in exclude}


def check_sample(ctx, exp, ev):
    """ev is one of the expected samples with the right content; returns its (shard, index)"""
    ctx.check(isinstance(ev, dict), "sample", lambda: show([ev]))
    who = [k for k, v in exp.items() if v["__key__"] == ev["__key__"]]
    ctx.check(len(who) == 1, "source", lambda: f"{ev['__key__']} not in the data set")
    want = exp[who[0]]
    ext = {k: v for k, v in ev.items() if not k.startswith("__")}
    wext = {k: v for k, v in want.items() if not k.startswith("__")}
    ctx.check(same(wext, ext), "content", lambda: f"sample {who[0]}: expected {wext} got {ext}")
    return who[0]


def h_epoch(ctx, sizes, nw, ws, *, training, shuffle, par, epochs=1, horizon=None, max_seq=None, rot=0, excl=None):
    """all workers of all ranks, one after the other (excl: any samples, a shard or a pattern is excluded)"""
    reset()
    fs = vfs.new()
    vfs.patch()
    root = "/vtfs/ds"
    shards = {f"s{i}.tar": simple(n, 1 + i % 2, prefix=f"k{i}_", junk=i == 0) for i, n in enumerate(sizes)}
    exclude, drop, parts = [], [], None
    if excl:
        keys = [f"{n}/k{i}_{j:03d}" for i, n in enumerate(shards) for j in range(sizes[i])]
        if excl == "samples":
            exclude = [k for k in keys if ctx.bool(f"exclude {k}")]
            ctx.assume(len(exclude) < len(keys))
        elif excl == "shard":
            exclude = drop = [ctx.choose("excluded shard", list(shards))]
            parts = ["s{0..%d}.tar" % (len(sizes) - 1)] if ctx.bool("brace list") else None
        else:
            exclude = [keys[0], keys[1]]
    add_dataset(fs, root, shards, symbolic=len(sizes) < 3 and not excl, split=parts,
                exclude=["s0.tar/k0_{000..001}"] if excl == "pattern" else exclude)
    pool = content(fs, root, [s for s in shards if s not in drop])
    exp = {k: v for k, v in pool.items() if v["__key__"] not in exclude}
    N = len(pool)
    seen = []
    for r in range(ws):
        for w in range(max(nw, 1)):
            reset()
            wc = WorkerConfig(rank=r, world_size=ws, num_workers=nw)
            ds = build(root, wc, training=training, shuffle_over_epochs=shuffle, parallel_shard_iters=par,
                       max_samples_per_sequence=max_seq, rotation=rot)
            pieces = [(p[0].name, list(range(p[0].offset, p[0].offset + p[0].count)))
                      for p in ds.dataset.shards[w]]
            assigned = [(n, i) for n, ix in pieces for i in ix]
            mine = [k for k in assigned if k in exp]
            ctx.check(abs(len(assigned) * ws * max(nw, 1) - N) < ws * max(nw, 1), "share",
                      lambda: f"worker {w} of rank {r} has {len(assigned)} of {N} samples")
            pieces = [(n, [i for i in ix if (n, i) in exp]) for n, ix in pieces]
            pieces = [(n, ix) for n, ix in pieces if ix]
            sim = Sim(ds, w, nw)
            with_end = not training
            for ep in range(epochs):
                got = []
                n_exp = len(mine) * (1 if not training else max(shuffle, 1) if shuffle != -1 else 1)
                for _ in range((horizon or n_exp) + (1 if with_end or not mine else 0)):
                    ev = sim.step()
                    if ev is END:
                        break
                    k = check_sample(ctx, exp, ev)
                    ctx.check(k in mine, "share", lambda: f"worker {w} of rank {r} yields {k}")
                    got.append(k)
                else:
                    ctx.check(not with_end and bool(mine), "epoch end", lambda: f"no end after {got}")
                if not training:
                    ctx.check(got == mine, "order", lambda: f"expected {mine} got {got}")
                elif mine:
                    check_shuffled(ctx, got, pieces, shuffle, par, horizon is None)
            seen += mine
    ctx.check(sorted(seen) == sorted(exp), "partition", lambda: f"{sorted(seen)} of {sorted(exp)}")
    ctx.reach("all workers")


def check_shuffled(ctx, got, pieces, shuffle, par, whole):
    """every piece is read from its start to its end; at most `par` of them open; exact multiplicity"""
    if shuffle == 1 and whole:
        want = sorted(k for n, ix in pieces for k in [(n, i) for i in ix])
        ctx.check(sorted(got) == want, "exactly once", lambda: f"expected {want} got {got}")
    if shuffle > 1 and whole:
        want = sorted([k for n, ix in pieces for k in [(n, i) for i in ix]] * shuffle)
        ctx.check(sorted(got) == want, "exactly once", lambda: f"expected {shuffle} times {want} got {got}")
    read = {}
    for g in got:
        read[g] = read.get(g, 0) + 1
        openp = 0
        for n, ix in pieces:
            cs = [read.get((n, i), 0) for i in ix]
            ctx.check(all(a >= b for a, b in zip(cs, cs[1:])), "order in a piece", lambda: f"{got}")
            openp += cs[0] - cs[-1]
        ctx.check(openp <= par, "open pieces", lambda: f"more than {par} pieces open: {got}")


def h_reach(ctx, sizes, par, shuffle):
    """every piece can come first (nothing is starved)"""
    reset()
    fs = vfs.new()
    vfs.patch()
    shards = {f"s{i}.tar": simple(n, prefix=f"k{i}_") for i, n in enumerate(sizes)}
    add_dataset(fs, "/vtfs/ds", shards, symbolic=False)
    ds = build("/vtfs/ds", WorkerConfig(rank=0, world_size=1, num_workers=0), training=True,
               shuffle_over_epochs=shuffle, parallel_shard_iters=par)
    ev = Sim(ds, 0, 0).step()
    ctx.reach(f"first {ev['__shard__']}")


def h_shard(ctx, n, max_parts, junk):
    """one shard of any layout, cut anywhere: the piece yields its samples completely"""
    reset()
    fs = vfs.new()
    vfs.patch()
    members = []
    if junk:
        kind = ctx.choose("ignored", [("a", False), ("__x__/y.t", True), ("LICENSE", True)])
    for i in range(n):
        if junk and ctx.bool(f"ignored before {i}"):
            members.append(kind)
        for p in range(ctx.pick(f"parts.{i}", 1, max_parts) if not junk else 2 - i % 2):
            if p and junk and ctx.bool(f"ignored inside {i}"):
                members.append(kind)
            members.append((f"d/{i:02d}.{'abc'[p]}.x", True))
    add_dataset(fs, "/vtfs/ds", {"s.tar": members})
    exp = content(fs, "/vtfs/ds", ["s.tar"], keep=lambda e: not e.startswith("b"))
    lo = ctx.pick("from", 0, n - 1)
    hi = ctx.pick("to", lo + 1, n)
    from megatron.energon.flavors.webdataset.sample_loader import WebdatasetSampleLoaderDataset
    from megatron.energon.flavors.webdataset.structs import ShardInfo

    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    ds = WebdatasetSampleLoaderDataset(
        [[(ShardInfo(name="s.tar", path=EPath("/vtfs/ds/s.tar"), offset=lo, count=hi - lo),)]],
        worker_config=wc, exclude=set(), part_filter=lambda e: not e.startswith("b"))
    sim = Sim(ds, 0, 0)
    for i in range(lo, hi):
        ev = sim.step()
        ctx.check(ev is not END, "complete", lambda: f"piece [{lo},{hi}) ends before sample {i}")
        k = check_sample(ctx, exp, ev[0])
        ctx.check(k == ("s.tar", i), "order", lambda: f"piece [{lo},{hi}) yields {k} at {i}")
        ctx.check(ev[0]["__restore_key__"] == ("Webdataset", "s.tar", i), "restore key",
                  lambda: f"sample {i}: {ev[0]['__restore_key__']}")
    ev = sim.step()
    ctx.check(ev is END, "end", lambda: f"piece [{lo},{hi}) goes on with {ev}")
    ctx.reach("read")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("all workers",), weight=3, seconds=700):
        out.append(dict(name=name, fn=fn, bounds=bounds, reach=reach, weight=weight, seconds=seconds))

    add("shard layouts", lambda c: h_shard(c, 3 if q else 4, 2, True),
        f"one shard of {3 if q else 4} samples, 1-2 parts each, ignored members anywhere, symbolic sizes, any cut",
        reach=("read",), weight=10)
    add("shard parts", lambda c: h_shard(c, 2 if q else 3, 3, False), "1-3 parts per sample, one part filtered",
        reach=("read",))
    for name, sizes, nw, ws, kw in (
            ("val", (2, 3), 0, 1, dict(training=False, shuffle=1, par=1, epochs=2)),
            ("val workers", (3, 2), 2, 1, dict(training=False, shuffle=1, par=1, epochs=2)),
            ("val ranks", (3, 4), 2, 2, dict(training=False, shuffle=1, par=1, epochs=2, max_seq=2, rot=1)),
            ("val more workers than samples", (1, 1), 3, 1, dict(training=False, shuffle=1, par=1, epochs=2)),
            ("train", (2, 2), 0, 1, dict(training=True, shuffle=1, par=1, epochs=2)),
            ("train parallel", (2, 1, 2), 0, 1, dict(training=True, shuffle=1, par=2)),
            ("train parallel two epochs", (2, 1), 0, 1, dict(training=True, shuffle=1, par=2, epochs=2)),
            ("train more parallel than pieces", (2, 1), 0, 1, dict(training=True, shuffle=1, par=3)),
            ("train two epochs shuffled", (1, 1), 0, 1, dict(training=True, shuffle=2, par=2)),
            ("train sequences", (3, 2), 1, 1, dict(training=True, shuffle=1, par=1, max_seq=1)),
            ("train workers", (2, 2), 2, 2, dict(training=True, shuffle=1, par=2, epochs=2)),
            ("val excluded", (3, 2), 1, 1, dict(training=False, shuffle=1, par=1, epochs=2, excl="samples")),
            ("val excluded workers", (3, 1), 2, 1, dict(training=False, shuffle=1, par=1, epochs=2, excl="samples")),
            ("val excluded shard", (2, 1, 1), 2, 1, dict(training=False, shuffle=1, par=1, excl="shard")),
            ("val excluded pattern", (3, 1), 0, 2, dict(training=False, shuffle=1, par=1, excl="pattern")),
            ("train excluded", (2, 1), 0, 1, dict(training=True, shuffle=1, par=2, epochs=2, excl="samples")),
            ("train excluded shard", (1, 2, 1), 0, 1, dict(training=True, shuffle=1, par=2, excl="shard")),
            ("train with replacement", (2, 1), 0, 1, dict(training=True, shuffle=-1, par=2, horizon=3))):
        add(name, lambda c, a=(sizes, nw, ws), kw=kw: h_epoch(c, *a, **kw),
            f"shards of {sizes} samples, {nw} workers, {ws} ranks, {kw}", weight=5)
    if not q:
        add("train two epochs shuffled 3", lambda c: h_epoch(c, (1, 2), 0, 1, training=True, shuffle=2, par=2),
            "shards of 1 and 2, two epochs shuffled", weight=9, seconds=850)
        add("train parallel 3", lambda c: h_epoch(c, (2, 2, 2), 0, 1, training=True, shuffle=1, par=3),
            "3 shards of 2, 3 parallel", weight=9)
        add("train parallel two epochs 4", lambda c: h_epoch(c, (2, 2), 0, 1, training=True, shuffle=1, par=2, epochs=2),
            "2 shards of 2, 2 epochs", weight=9)
        add("train 3 epochs shuffled", lambda c: h_epoch(c, (1, 1), 0, 1, training=True, shuffle=3, par=2),
            "2 shards of 1, three epochs shuffled", weight=9)
    for shuffle in (1, 2, -1):
        add(f"reach {shuffle}", lambda c, s=shuffle: h_reach(c, (1, 1, 1), 2, s), "3 shards",
            reach=[f"first s{i}.tar" for i in range(3)], weight=1)
    return out
