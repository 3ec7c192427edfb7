"""Metadatasets: weights, split parts, subflavors and epochs of nested blends and joins."""

from fractions import Fraction

import yaml

from megatron.energon import dataset_config
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.base_dataset import Sample
from megatron.energon.metadataset.loader import load_dataset
from megatron.energon.worker import WorkerConfig

from vt import vfs
from vt.engine import SymInt, vand
from vt.env import reset

ASSUMPTIONS = [
    "config files are parsed by the real yaml; numbers in them are replaced by solver values after parsing",
    "floating point weights are exact up to a relative rounding error of 2^-52 per operation",
]

ROOT = "/vtfs/m"
VALUES = {}


def join2(a, b):
    return (a, b)


class FakeYaml:
    """the real parser; "$name" stands for a solver value"""

    def __getattr__(self, n):
        return getattr(yaml, n)

    @staticmethod
    def _sub(x):
        if isinstance(x, dict):
            return {k: FakeYaml._sub(v) for k, v in x.items()}
        if isinstance(x, list):
            return [FakeYaml._sub(v) for v in x]
        if isinstance(x, str) and x.startswith("$"):
            return VALUES[x]
        return x

    @staticmethod
    def safe_load(f):
        return FakeYaml._sub(yaml.safe_load(f))


def setup():
    reset()
    vfs.patch()
    dataset_config.yaml = FakeYaml()
    VALUES.clear()
    fs = vfs.new()
    for i in (1, 2, 3):
        own = {1: "subflavors: {k: 0, cfg: d1}\n", 2: "", 3: "subflavors: {}\n"}[i]
        r = f"{ROOT}/ds{i}/.nv-meta"
        fs.text(f"{r}/.info.yaml", "shard_counts: {tr.tar: 3, va.tar: 3, te.tar: 3}\n")
        for name, parts in (("split.yaml", "train: [tr.tar], val: [va.tar], test: [te.tar]"),
                            ("alt.yaml", "train: [te.tar], val: [tr.tar], test: [va.tar]")):
            fs.text(f"{r}/{name}", "split_parts: {%s}\n" % parts)
        fs.text(f"{r}/dataset.yaml", "__module__: megatron.energon\n__class__: CrudeWebdataset\n" + own)
        fs.text(f"{r}/other.yaml", "__module__: megatron.energon\n__class__: CrudeWebdataset\nmax_samples_per_sequence: 7\n" + own)
    return fs


def emit(x):
    """solver values as "$name" """
    if isinstance(x, dict):
        return {k: emit(v) for k, v in x.items()}
    if isinstance(x, list):
        return [emit(v) for v in x]
    if isinstance(x, SymInt) or type(x).__name__ == "_Num":
        name = f"${len(VALUES)}"
        VALUES[name] = x
        return name
    return x


def mds(version, splits):
    head = {"__module__": "megatron.energon", "__class__": "Metadataset" if version == 1 else "MetadatasetV2"}
    return {**head, "splits": splits}


def blend(version, refs):
    return {"datasets" if version == 1 else "blend": refs}


class Ref:
    """attributes of one reference"""

    def __init__(self, ctx, name, fam, weight=True):
        self.name = name
        self.w = ctx.int(f"weight.{name}", 1, 1000) if weight and fam == "weights" else None
        self.sf = ctx.choose(f"sf.{name}", [None, name]) if fam == "subflavor" else None
        self.sfs = ctx.choose(f"sfs.{name}", [None, {"k": name, f"own{name}": 1}, {}]) if fam == "subflavors" else None
        self.mul = None
        if fam == "multipliers":
            k = ctx.choose(f"mulkind.{name}", ["none", "inf", "n"])
            self.mul = {"none": None, "inf": -1}.get(k) if k != "n" else ctx.int(f"mul.{name}", 1)
        self.sp = ctx.choose(f"sp.{name}", [None, "train", "val"]) if fam == "splits" else None
        self.alt = bool(ctx.bool(f"alt.{name}")) if fam == "configs" else False
        self.other = bool(ctx.bool(f"other.{name}")) if fam == "configs" else False

    def yaml(self, **k):
        d = dict(k)
        for key, v in (("weight", self.w), ("subflavor", self.sf), ("subflavors", self.sfs),
                       ("shuffle_over_epochs_multiplier", self.mul), ("split_part", self.sp),
                       ("split_config", "alt.yaml" if self.alt else None),
                       ("dataset_config", "other.yaml" if self.other else None)):
            if v is not None:
                d[key] = v
        return d


class Env:
    """what the references from the outside in give"""

    def __init__(self, split, sf=None, sfs=None, mul=1):
        self.split, self.sf, self.sfs, self.mul, self.num, self.den = split, sf, sfs, mul, 1, 1

    def enter(self, ref, among=None):
        e = Env(ref.sp or self.split, self.sf or ref.sf, self.sfs, self.mul)
        if ref.sfs is not None:
            e.sfs = {**ref.sfs, **(self.sfs or {})}
        m = 1 if ref.mul is None else ref.mul
        e.mul = -1 if (is_inf(m) or is_inf(self.mul)) else self.mul * m
        e.num, e.den = self.num, self.den
        if among is not None:
            e.num = e.num * (1 if ref.w is None else ref.w)
            e.den = e.den * sum(1 if r.w is None else r.w for r in among)
        return e


def is_inf(m):
    return isinstance(m, int) and m == -1


SHARD = {"train": "tr.tar", "val": "va.tar", "test": "te.tar"}
ALT = {"train": "te.tar", "val": "tr.tar", "test": "va.tar"}
OWN = {1: {"k": 0, "cfg": "d1"}, 2: None, 3: {}}


def check_leaf(ctx, f, i, e, ref):
    ctx.check(str(f.path) == f"{ROOT}/ds{i}", "data set", lambda: f"{f.path} expected ds{i}")
    ctx.check([s.name for s in f.shards] == [(ALT if ref.alt else SHARD)[e.split]], "split part",
              lambda: f"{[s.name for s in f.shards]}, expected split {e.split} alt={ref.alt}")
    ctx.check(f.subflavor == e.sf, "subflavor", lambda: f"{f.subflavor}, expected {e.sf}")
    own = OWN[i]
    want = e.sfs if own is None else {**own, **(e.sfs or {})}
    ctx.check((f.subflavors or {}) == (want or {}), "subflavors", lambda: f"{f.subflavors}, expected {want}")
    ctx.check(f.shuffle_over_epochs == e.mul, "epochs", lambda: f"{f.shuffle_over_epochs!r}, expected {e.mul!r}")
    ctx.check(f.max_samples_per_sequence == (7 if ref.other else 5), "config file", lambda: f"{f.max_samples_per_sequence}")
    ctx.check(f.training is True, "arguments", "training")


def check_weight(ctx, w, e, what):
    """|w - num/den| tiny"""
    d = w * e.den - e.num
    tol = 1e-12
    ctx.check(vand(d <= tol * e.den, -d <= tol * e.den), "weight", lambda: f"{what}: {w!r}, expected {e.num!r} / {e.den!r}")


def top_env(ctx, fam):
    split = ctx.choose("top.split", ["train", "val"]) if fam == "splits" else "train"
    kw, e = {}, Env(split)
    if fam == "subflavor":
        e.sf = kw["subflavor"] = ctx.choose("top.sf", [None, "top"])
    if fam == "subflavors":
        e.sfs = kw["subflavors"] = ctx.choose("top.sfs", [None, {"k": "top", "top": 1}])
    if fam == "multipliers":
        e.mul = kw["shuffle_over_epochs_multiplier"] = -1 if ctx.bool("top.inf") else ctx.int("top.mul", 1)
    return e, kw


def get(loader, e, kw):
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    return loader.get_datasets(training=True, split_part=e.split, worker_config=wc, max_samples_per_sequence=5, **kw)


def write(fs, path, d):
    fs.text(path, yaml.safe_dump(emit(d), sort_keys=False))


def h_nested(ctx, version, inner_version, fam, twice=True):
    """top blends a nested metadataset (selected split) and a data set"""
    fs = setup()
    e, kw = top_env(ctx, fam)
    a, b, c, d, g = (Ref(ctx, n, fam) for n in "abcdg")
    for split in ("train", "val"):
        pass
    inner = mds(inner_version, {
        "train": blend(inner_version, [a.yaml(path="ds1"), b.yaml(path="./ds2")]),
        "val": blend(inner_version, [c.yaml(path=f"{ROOT}/ds3")])})
    write(fs, f"{ROOT}/inner.yaml", inner)
    d_alt, d.alt = d.alt, False  # a nested metadataset has no config files of its own
    d_other, d.other = d.other, False
    outer = blend(version, [d.yaml(path="../m/inner.yaml"), g.yaml(path="ds2")])
    write(fs, f"{ROOT}/outer.yaml", mds(version, {"train": outer, "val": outer}))
    loader = load_dataset(EPath(f"{ROOT}/outer.yaml"))
    for _ in range(2 if twice else 1):  # reading it does not change it
        got = get(loader, e, kw)
        ed, eg = e.enter(d, [d, g]), e.enter(g, [d, g])
        if ed.split == "train":
            exp = [(1, ed.enter(a, [a, b]), a), (2, ed.enter(b, [a, b]), b)]
        else:
            exp = [(3, ed.enter(c, [c]), c)]
        exp.append((2, eg, g))
        ctx.check(len(got) == len(exp), "data sets", lambda: f"{len(got)} data sets, expected {len(exp)}")
        for k, ((f, w), (i, x, ref)) in enumerate(zip(got, exp)):
            check_leaf(ctx, f, i, x, ref)
            check_weight(ctx, w, x, f"data set {k}")
        tot = sum(w for _, w in got)
        ctx.check(vand(tot - 1 <= 1e-12, 1 - tot <= 1e-12), "total weight", lambda: f"{tot!r}")
    ctx.reach("nested")


def h_blend(ctx, version, n):
    """weights of a flat blend, some of them 0"""
    fs = setup()
    e, kw = top_env(ctx, "")
    refs = [Ref(ctx, str(i), "") for i in range(n)]
    for i, r in enumerate(refs):
        r.w = ctx.int(f"w.{i}", 0, 1000)
    ctx.assume(sum(r.w for r in refs) > 0)
    write(fs, f"{ROOT}/o.yaml", mds(version, {"train": blend(version, [r.yaml(path=f"ds{1 + i % 3}") for i, r in enumerate(refs)])}))
    got = get(load_dataset(EPath(f"{ROOT}/o.yaml")), e, kw)
    ctx.check(len(got) == n, "data sets", lambda: f"{len(got)}")
    for i, ((f, w), r) in enumerate(zip(got, refs)):
        x = e.enter(r, refs)
        check_leaf(ctx, f, 1 + i % 3, x, r)
        check_weight(ctx, w, x, f"data set {i}")
    ctx.reach("blend")


def h_direct(ctx, fam, kind):
    """a split that is one reference, to a data set or a metadataset; or a path to a data set"""
    fs = setup()
    e, kw = top_env(ctx, fam)
    a, d = Ref(ctx, "a", fam, weight=False), Ref(ctx, "d", fam, weight=False)
    if kind == "path":
        a = Ref(ctx, "none", "")
        got = get(load_dataset(EPath(f"{ROOT}/ds1")), e, kw)
        x = e
    elif kind == "ref":
        write(fs, f"{ROOT}/o.yaml", mds(2, {"train": a.yaml(path="ds1"), "val": a.yaml(path="ds1")}))
        got = get(load_dataset(EPath(f"{ROOT}/o.yaml")), e, kw)
        x = e.enter(a)
    else:
        write(fs, f"{ROOT}/sub/i.yaml", mds(2, {"train": a.yaml(path="../ds1"), "val": {"path": "../ds2"}}))
        d.alt = d.other = False
        write(fs, f"{ROOT}/o.yaml", mds(2, {"train": d.yaml(path="sub/i.yaml"), "val": d.yaml(path="sub/i.yaml")}))
        got = get(load_dataset(EPath(f"{ROOT}/o.yaml")), e, kw)
        x = e.enter(d)
        if x.split != "train":
            a = Ref(ctx, "none", "")
            ctx.check(len(got) == 1, "data sets", lambda: f"{len(got)}")
            check_leaf(ctx, got[0][0], 2, x, a)
            ctx.reach("direct")
            return
        x = x.enter(a)
    ctx.check(len(got) == 1 and bool(got[0][1] == 1), "data sets", lambda: f"{got}")
    check_leaf(ctx, got[0][0], 1, x, a)
    ctx.reach("direct")


def h_join(ctx, fam, blended, as_dict):
    """a join: one data set, whose parts have the settings of the join and their own"""
    fs = setup()
    e, kw = top_env(ctx, fam)
    j, a, b, g = (Ref(ctx, n, fam, weight=n in "jg") for n in "jabg")
    if fam == "splits":
        a.sp = b.sp if ctx.bool("one of them") else a.sp
    j_other, j.other = j.other, False
    if fam == "multipliers":
        a.mul = b.mul = None
    if not blended:
        j.w = None
    joiner = {"__module__": __name__, "__function__": "join2"}
    parts = [a.yaml(path="ds1"), b.yaml(path="ds2")]
    body = j.yaml(join={"a": parts[0], "b": parts[1]} if as_dict else parts, joiner=joiner)
    s = blend(2, [body, g.yaml(path="ds3")]) if blended else body
    write(fs, f"{ROOT}/o.yaml", mds(2, {"train": s, "val": s}))
    got = get(load_dataset(EPath(f"{ROOT}/o.yaml")), e, kw)
    ctx.check(len(got) == (2 if blended else 1), "data sets", lambda: f"{len(got)}")
    f, w = got[0]
    ej = e.enter(j, [j, g] if blended else None)
    check_weight(ctx, w, ej, "join")
    ctx.check(f.shuffle_over_epochs == ej.mul, "epochs", lambda: f"join {f.shuffle_over_epochs!r}, expected {ej.mul!r}")
    ctx.check(f.max_samples_per_sequence == 5 and f.training is True, "arguments", "of the join")
    ctx.check(len(f.inner_datasets) == 2 and f.inner_dataset_keys == (["a", "b"] if as_dict else None), "parts", lambda: f"{f.inner_datasets}")
    for i, (x, r) in enumerate(zip(f.inner_datasets, (a, b))):
        er = ej.enter(r)
        if r is a and j.alt or r is b and j.alt:
            r.alt = True  # set for all joined data sets
        check_leaf(ctx, x, 1 + i, er, r)
    if blended:
        eg = e.enter(g, [j, g])
        check_leaf(ctx, got[1][0], 3, eg, g)
        check_weight(ctx, got[1][1], eg, "other")
    ctx.reach("join")


def instances(tier):
    q = tier == "quick"
    out = []
    fams = ["weights", "subflavor", "subflavors", "multipliers", "splits", "configs"]
    for fam in fams:
        for v, iv in ((1, 1), (2, 2)) if q else ((1, 1), (2, 2), (1, 2), (2, 1)):
            if fam == "configs" and (v, iv) == (1, 1) and q:
                continue
            out.append(dict(name=f"nested {fam} v{v}/{iv}", fn=lambda c, a=(v, iv, fam): h_nested(c, *a), reach=("nested",), weight=4,
                            bounds=f"two levels, 5 references, any {fam} of every reference"))
    for fam in fams[1:]:
        for kind in ("ref", "file") + (("path",) if fam != "configs" else ()):
            out.append(dict(name=f"direct {kind} {fam}", fn=lambda c, a=(fam, kind): h_direct(c, *a), reach=("direct",),
                            bounds=f"one or two references, any {fam}"))
        for blended, as_dict in ((False, True), (True, False)):
            out.append(dict(name=f"join {fam}{' blended' if blended else ''}{' dict' if as_dict else ''}", reach=("join",), weight=2,
                            fn=lambda c, a=(fam, blended, as_dict): h_join(c, *a), bounds=f"a join of two data sets, any {fam}"))
    out.append(dict(name="join weights blended", fn=lambda c: h_join(c, "weights", True, False), reach=("join",), bounds="any weights"))
    for v in (1, 2):
        for n in (2, 3) if q else (2, 3, 4):
            out.append(dict(name=f"blend v{v} n={n}", fn=lambda c, v=v, n=n: h_blend(c, v, n), reach=("blend",),
                            bounds=f"{n} data sets of any weights, also 0"))
    return out
