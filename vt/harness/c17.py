"""Preparing a data set: index, counts and splits."""

import contextlib
import io
import itertools
import random
import logging
from fractions import Fraction

import yaml

from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset import prepare
from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator
from megatron.energon.worker import WorkerConfig

from vt import vfs
from vt.env import END, Sim, reset
from vt.harness.c03 import base_of, build, check_sample, content, simple
from vt.harness.c15 import Faults

ASSUMPTIONS = [
    "file system and tarfile are modelled (vt/vfs.py): headers of any number of blocks, padded data of symbolic size; "
    "a fault or a truncation shows as tarfile shows it",
    "the process pool runs the workers one after the other in this process; results of an unordered map come in any order",
]

ROOT = "/vtfs/ds"
logging.getLogger("megatron.energon.flavors.webdataset.prepare").setLevel(logging.CRITICAL + 1)


class Crash(BaseException):
    pass


class FakePool:
    ctx = None
    crash = None

    def __init__(self, workers=None, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def imap(self, f, xs, chunksize=1):
        return iter([f(x) for x in xs])

    def map(self, f, xs, chunksize=1):
        return [f(x) for x in xs]

    def imap_unordered(self, f, xs, chunksize=1):
        rs = [f(x) for x in xs]
        while rs:
            yield rs.pop(self.ctx.pick(f"done.{len(rs)}", 0, len(rs) - 1) if len(rs) > 1 else 0)

    def close(self):
        pass

    join = terminate = close


class FakeMP:
    Pool = FakePool

    @staticmethod
    def get_context(*a):
        return FakeMP


def setup(ctx):
    reset()
    vfs.patch()
    prepare.mp = FakeMP
    FakePool.ctx = ctx
    fs = vfs.new()
    fs.dirs.add(ROOT)
    return fs


def run(paths, **k):
    k.setdefault("split_parts_ratio", [("train", 1)])
    return WebdatasetPreparator.prepare_dataset(EPath(ROOT), paths, workers=2, **k)


def meta(fs, name):
    return yaml.safe_load(fs.nodes[f"{ROOT}/.nv-meta/{name}"].data.decode())


KINDS = ["next", "part", "dir", "meta", "noext", "hidden"]


def members(ctx, tag, k, kinds=KINDS):
    """any sequence of k members of the kinds"""
    out, n, p = [], -1, 0
    for i in range(k):
        kind = ctx.choose(f"kind.{tag}.{i}", kinds)
        if kind == "part" and n < 0:
            kind = "next"
        if kind == "next":
            n, p = n + 1, 0
            out.append((f"d.x/{n:03d}.p{p}.tx" if n % 2 else f"{n:03d}.p{p}", True))
        elif kind == "part":
            p += 1
            out.append((f"d.x/{n:03d}.p{p}.tx" if n % 2 else f"{n:03d}.p{p}", True))
        else:
            out.append({"dir": (f"dir{i}.x", False), "meta": ("__x__/001.p0", True), "noext": (f"x/README{i}", True),
                        "hidden": (f".hid{i}", True)}[kind])
    return out


def parts_of(ms):
    return {m[len(base_of(m)) + 1:] for m, reg in ms if reg and base_of(m) is not None}


def check_index(ctx, fs, path, t, label="index", upto=None):
    """the index of tar t is right; returns the number of samples"""
    want = vfs.sample_index(t, base_of)
    ctx.check(path + ".idx" in fs.nodes, label, f"{path} has no index")
    got = fs.nodes[path + ".idx"].values
    ctx.check(len(got) == len(want), label, lambda: f"{path}: {len(got)} entries, expected {len(want)}")
    for i, (a, b) in enumerate(zip(want, got)):
        ctx.check(a == b, label, lambda: f"{path}: entry {i} is {b!r}, expected {a!r}")
    return len(want) - 1


def h_members(ctx, k):
    fs = setup(ctx)
    ms = members(ctx, "t", k)
    t = fs.add(vfs.Tar(f"{ROOT}/a/s0.x.tar", ms, tag="t", long_headers=True))
    found = run(["a/s0.x.tar"])
    bases = {base_of(m) for m, reg in ms if reg} - {None}
    info, split = meta(fs, ".info.yaml"), meta(fs, "split.yaml")
    if not bases:
        ctx.check(not info["shard_counts"], "empty", f"{info}")
        ctx.reach("empty")
        return
    n = check_index(ctx, fs, f"{ROOT}/a/s0.x.tar", t)
    ctx.check(info == {"shard_counts": {"a/s0.x.tar": n}} and n == len(bases), "count", lambda: f"{info}, {bases}")
    ctx.check(split["split_parts"] == {"train": ["a/s0.x.tar"]} and not split.get("exclude"), "split", lambda: f"{split}")
    ctx.check(found == parts_of(ms), "parts", lambda: f"{found} expected {parts_of(ms)}")
    ctx.check(not [p for p in fs.nodes if p.endswith(".tmp")], "temporary file", "left behind")
    for x in ("p0", "p1"):
        samples = list(WebdatasetPreparator.iter_dataset_content(EPath(f"{ROOT}/a/s0.x.tar"), (x,)))
        ctx.check(len(samples) == n, "content", lambda: f"{samples}")
        i = -1
        cur = None
        for j, (m, reg) in enumerate(ms):
            b = base_of(m) if reg else None
            if b is None:
                continue
            if b != cur:
                i, cur = i + 1, b
                want = {}
                for m2, reg2 in ms:
                    if reg2 and base_of(m2) == b:
                        want[m2[len(b) + 1:]] = None
                ctx.check(samples[i].keys() == want.keys(), "content", lambda: f"{samples[i]} expected {want}")
            v = samples[i][m[len(b) + 1:]]
            if m[len(b) + 1:] == x:
                ctx.check(v is not None and bool(v == t.data(j)), "content", lambda: f"{m}: {v}")
            else:
                ctx.check(v is None, "content", lambda: f"{m}: {v}")
    ctx.reach("prepared")


def h_roundtrip(ctx, sizes):
    """what prepare writes is what the loaders read"""
    fs = setup(ctx)
    shards = {f"s{i}.tar": simple(n, 1 + i % 2, prefix=f"k{i}_", junk=i == 0) for i, n in enumerate(sizes)}
    for name, ms in shards.items():
        fs.add(vfs.Tar(f"{ROOT}/{name}", ms, tag=name, long_headers=3))
    run(["s{0..%d}.tar" % (len(sizes) - 1)], shuffle_seed=ctx.choose("seed", [None, 42]))
    exp = content(fs, ROOT, shards)
    ws = ctx.pick("ranks", 1, 3)
    got = []
    for r in range(ws):
        reset()
        wc = WorkerConfig(rank=r, world_size=ws, num_workers=0)
        sim = Sim(build(ROOT, wc, training=False), 0, 0)
        for _ in range(sum(sizes) + 1):
            ev = sim.step()
            if ev is END:
                break
            got.append(check_sample(ctx, exp, ev))
    ctx.check(sorted(got) == sorted(exp), "samples", lambda: f"{got} expected {list(exp)}")
    ctx.reach("read")


def h_bad(ctx, n, what):
    """one shard is missing, cut or fails to read or its index fails to be written: left out, or complete"""
    fs = setup(ctx)
    names = [f"s{i}.tar" for i in range(n)]
    bad = ctx.pick("bad", 0, n - 1)
    tars = {}
    for i, nm in enumerate(names):
        tars[nm] = fs.add(vfs.Tar(f"{ROOT}/{nm}", simple(2, 2, prefix=f"k{i}_", junk=True), tag=nm))
    b = names[bad]
    t = tars[b]
    if ctx.bool("old index"):
        fs.add(vfs.Words(f"{ROOT}/{b}.idx", [7, 8]))
    old = list(fs.nodes[f"{ROOT}/{b}.idx"].values) if f"{ROOT}/{b}.idx" in fs.nodes else None
    if what == "missing":
        del fs.nodes[f"{ROOT}/{b}"]
    elif what == "cut":
        t.cut = ctx.int("cut", 0)
        ctx.assume(t.cut < t.end + 1024)
    elif what == "read":
        class F(Faults):
            def opening(self, path):
                self.on = path.endswith(b)
                super().opening(path)
        vfs.FAULTS = F(ctx, 1, 0)
    elif what == "write":
        at = ctx.pick("at", 1, 8)
        cnt = [0]

        def tick(ev):
            if b in ev:
                cnt[0] += 1
                if cnt[0] == at:
                    raise OSError("no space left on device")
        fs.on_tick = tick
    run(list(names))
    vfs.FAULTS = None
    fs.on_tick = None
    info = meta(fs, ".info.yaml")["shard_counts"]
    split = meta(fs, "split.yaml")["split_parts"]["train"]
    ctx.check([x for x in info if x != b] == [x for x in names if x != b], "other shards", lambda: f"{info}")
    ctx.check(sorted(split) == sorted(info), "split", lambda: f"{split} of {list(info)}")
    for nm in names:
        if nm != b:
            ctx.check(check_index(ctx, fs, f"{ROOT}/{nm}", tars[nm]) == info[nm] == 2, "other shards", lambda: f"{info}")
    now = fs.nodes[f"{ROOT}/{b}.idx"].values if f"{ROOT}/{b}.idx" in fs.nodes else None
    if b not in info:
        if now is not None and what != "write":
            ctx.check(now == old or len(now) == 1, "index", lambda: f"index of the shard that was left out: {now}")
        ctx.reach("left out")
        return
    ctx.check(what != "missing", "missing", "a missing shard is listed")
    ctx.check(now is not None and info[b] == len(now) - 1, "incomplete", lambda: f"{b}: {info[b]} samples, index {now}")
    want = vfs.sample_index(t, base_of)
    for i in range(info[b]):
        ctx.check(now[i] == want[i], "index", lambda: f"entry {i} of {now}")
    size = t.size()
    ctx.check(now[info[b]] <= size, "incomplete", lambda: f"samples up to {now[info[b]]!r} of {size!r}")
    if what != "cut":
        check_index(ctx, fs, f"{ROOT}/{b}", t)
    else:
        ctx.check(any(bool(now[-1] == o) for o in t.off + [t.end]), "index", lambda: f"{now}")
    ctx.reach("complete")


def h_crash(ctx, n):
    """the process ends at any point: every index is the old or the complete new one"""
    fs = setup(ctx)
    names = [f"s{i}.tar" for i in range(n)]
    tars, old = {}, {}
    for i, nm in enumerate(names):
        tars[nm] = fs.add(vfs.Tar(f"{ROOT}/{nm}", simple(2, 1, prefix=f"k{i}_"), tag=nm))
        if ctx.bool(f"old.{i}"):
            old[nm] = [ctx.int(f"o.{i}", 0)]
            fs.add(vfs.Words(f"{ROOT}/{nm}.idx", list(old[nm])))
    at = ctx.pick("crash", 1, 8 * n + 1)
    cnt = [0]

    done = False
    # the file system after the crash: clean-up code of the dead process changes nothing
    freeze = {}

    def snapshot(ev):
        if ".nv-meta" in ev:
            return
        if not freeze and cnt[0] + 1 >= at:
            freeze["nodes"] = {p: (list(x.values) if isinstance(x, vfs.Words) else x) for p, x in fs.nodes.items()}
        cnt[0] += 1
        if cnt[0] >= at:  # nothing is written any more
            raise SystemExit("crash")

    fs.on_tick = snapshot
    try:
        run(list(names))
        done = True
    except SystemExit:
        pass
    fs.on_tick = None
    nodes = freeze.get("nodes")
    if nodes is None:
        ctx.check(done, "crash", "no crash but not done")
        nodes = {p: (list(x.values) if isinstance(x, vfs.Words) else x) for p, x in fs.nodes.items()}
        ctx.reach("done")
    else:
        ctx.reach("crashed")
    for nm in names:
        now = nodes.get(f"{ROOT}/{nm}.idx")
        want = vfs.sample_index(tars[nm], base_of)
        if now is None:
            ctx.check(nm not in old and freeze, "index", f"{nm}: no index")
        elif nm in old and len(now) == 1:
            ctx.check(now[0] == old[nm][0], "old index", lambda: f"{now}")
        else:
            ctx.check(len(now) == len(want), "partial index", lambda: f"{nm}: {now}")
            for a, b in zip(want, now):
                ctx.check(a == b, "index", lambda: f"{nm}: {now}")


def h_ratio(ctx, n, k, unit):
    """every shard is in exactly one split, of about the size asked for"""
    fs = setup(ctx)
    names = [f"s{i}.tar" for i in range(n)]
    for i, nm in enumerate(names):
        fs.add(vfs.Tar(f"{ROOT}/{nm}", simple(1, 1, prefix=f"k{i}_")))
    rs = [ctx.pick(f"ratio.{i}", 0, 10) for i in range(k - 1)]
    last = 10 - sum(rs)
    if last < 0:
        return
    rs.append(last)
    seed = ctx.choose("seed", [None, 42])
    def prep():
        run(list(names), split_parts_ratio=[(f"p{i}", r / 10 if unit == "tenths" else r) for i, r in enumerate(rs)], shuffle_seed=seed)

    if seed is not None and unit == "tenths":
        random.seed(1)
        prep()
        before = meta(fs, "split.yaml")["split_parts"]
        random.seed(2)
        prep()
        now = meta(fs, "split.yaml")["split_parts"]
        ctx.check(before == now, "reproducible", lambda: f"same seed: {before} and {now}")
    else:
        prep()
    info, split = meta(fs, ".info.yaml")["shard_counts"], meta(fs, "split.yaml")["split_parts"]
    ctx.check(list(split) == [f"p{i}" for i in range(k)], "names", lambda: f"{list(split)}")
    flat = list(itertools.chain(*split.values()))
    ctx.check(sorted(flat) == sorted(names), "partition", lambda: f"ratios {rs}: {split}")
    if seed is None:
        ctx.check(flat == names, "order", lambda: f"{flat}")
    cum, end = Fraction(0), 0
    for i, r in enumerate(rs):
        cum += Fraction(r, 10)
        end += len(split[f"p{i}"])
        ctx.check(abs(end - n * cum) <= 1, "size", lambda: f"ratios {rs}: {split}")
    ctx.check(sorted(info) == sorted(names) and all(v == 1 for v in info.values()), "counts", lambda: f"{info}")
    ctx.reach("split")


def h_patterns(ctx, n):
    """a shard is in every split with a pattern it matches; counts and splits follow the order of the shards"""
    fs = setup(ctx)
    names = [f"{'ab'[i % 2]}/s{i}.tar" for i in range(n)]
    empty = [ctx.bool(f"empty.{i}") for i in range(n)]
    empty = [bool(e) for e in empty]
    for i, nm in enumerate(names):
        fs.add(vfs.Tar(f"{ROOT}/{nm}", [("README", True)] if empty[i] else simple(i + 1, 1)))
    pats = [("train", "a/.*"), ("val", "{a/s0,b/s[13]}.tar"), ("none", "s0.*"), ("all", ".*")]
    run(list(names), split_parts_patterns=pats, split_parts_ratio=None)
    info, split = meta(fs, ".info.yaml")["shard_counts"], meta(fs, "split.yaml")["split_parts"]
    have = [x for x, e in zip(names, empty) if not e]
    ctx.check({k: v for k, v in info.items()} == {x: names.index(x) + 1 for x in have}, "counts", lambda: f"{info}")
    want = {"train": [x for x in have if x.startswith("a/")],
            "val": [x for x in have if x in ("a/s0.tar", "b/s1.tar", "b/s3.tar")], "none": [], "all": have}
    ctx.check(split == want, "split", lambda: f"{split} expected {want}")
    ctx.reach("split")


def instances(tier):
    q = tier == "quick"
    out = []
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(dict(name=f"members {k}", fn=lambda c, k=k: h_members(c, k), reach=("prepared",), weight=k,
                        bounds=f"{k} members, each of one of 6 kinds, any header and data sizes"))
    for s in ((2, 1), (1, 2, 2)) if q else ((2, 1), (3, 2), (1, 2, 2), (0, 2, 3)):
        out.append(dict(name=f"round trip {s}", fn=lambda c, s=s: h_roundtrip(c, s), reach=("read",), weight=3,
                        bounds=f"shards of {s} samples of any sizes, 1-3 ranks"))
    for w in ("missing", "cut", "read", "write"):
        out.append(dict(name=f"bad shard {w}", fn=lambda c, w=w: h_bad(c, 2 if q else 3, w), weight=2,
                        reach=("left out",) + (() if w == "missing" else ("complete",)),
                        bounds=f"{2 if q else 3} shards, one {w}: any position, size or operation"))
    for n in (1, 2) if q else (1, 2, 3):
        out.append(dict(name=f"crash {n}", fn=lambda c, n=n: h_crash(c, n), reach=("crashed", "done"),
                        bounds=f"{n} shards of 2 samples, every crash point"))
    for unit in ("tenths", "integers"):
        for n, k in ((4, 2), (10, 3)) if q else ((1, 2), (4, 2), (7, 3), (10, 3), (13, 3), (10, 4)):
            out.append(dict(name=f"ratio {unit} {n} shards {k} splits", fn=lambda c, a=(n, k, unit): h_ratio(c, *a), reach=("split",),
                            bounds=f"{n} shards, every ratio of {k} splits in tenths", weight=2))
    out.append(dict(name="patterns", fn=lambda c: h_patterns(c, 4), reach=("split",), bounds="4 shards, any of them empty"))
    return out
