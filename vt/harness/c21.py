"""Fields of samples: the field map, access expressions, sample loaders and part filters."""

import contextlib
import io
from dataclasses import dataclass, field
from typing import Any

from megatron.energon.epathlib import EPath
from megatron.energon.errors import SYSTEM_EXCEPTIONS
from megatron.energon.flavors.base_dataset import Sample
from megatron.energon.flavors.webdataset.default_generic_webdataset import DefaultGenericWebdatasetFactory
from megatron.energon.flavors.webdataset.field_access import field_access, split_field_access
from megatron.energon.worker import WorkerConfig

from vt import symstr, vfs
from vt.engine import vand
from vt.env import END, Sim, reset, same, show
from vt.harness.c03 import ASSUMPTIONS as BASE_ASSUMPTIONS
from vt.harness.c03 import add_dataset
from vt.symstr import text

STRINGS = True
ASSUMPTIONS = BASE_ASSUMPTIONS + [
    "descriptions of fields are strings of printable ASCII characters; regular expressions are matched by vt/symstr.py",
    "decoders of file contents are not part of this check (nested values are given to the access directly)",
]


@dataclass
class Two(Sample):
    a: Any
    b: Any


@dataclass
class Three(Sample):
    a: Any
    b: Any
    c: Any = "default"
    d: Any = field(default_factory=lambda: ["made"])


class Fields(DefaultGenericWebdatasetFactory[Two]):
    __sample_type__ = Two


class Optionals(DefaultGenericWebdatasetFactory[Three]):
    __sample_type__ = Three


def parse(option):
    """name[key][key]... -> [name, key, key]; anything else is a name itself"""
    n = len(option)
    i = 0
    while i < n and not bool(option[i] == "[") and not bool(option[i] == "]"):
        i += 1
    out = [option[:i]]
    if i == 0:
        return [option]
    while i < n:
        if not bool(option[i] == "["):
            return [option]
        j = i + 1
        while j < n and not bool(option[j] == "[") and not bool(option[j] == "]"):
            j += 1
        if j == i + 1 or j == n or not bool(option[j] == "]"):
            return [option]
        out.append(option[i + 1:j])
        i = j + 1
    return out


def cut(s, at):
    out, last = [], 0
    for i in range(len(s)):
        if bool(s[i] == at):
            out.append(s[last:i])
            last = i + 1
    return out + [s[last:]]


def h_split(ctx, n):
    """every description of n characters"""
    desc = text(ctx, "desc", n, 32)
    got = split_field_access(desc)
    want = [parse(o) for o in cut(desc, ",")]
    ctx.check(isinstance(got, list) and len(got) == len(want), "options", lambda: f"{desc!s}: {got}, expected {want}")
    for g, w in zip(got, want):
        ctx.check(len(g) == len(w), "access", lambda: f"{desc!s}: {got}, expected {want}")
        ctx.check(vand(*[len(x) == len(y) and x == y for x, y in zip(g, w)]), "keys", lambda: f"{desc!s}: {got}, expected {want}")
        ctx.reach("nested" if len(w) > 1 else "plain")
    if len(want) > 1:
        ctx.reach("options")


def h_written(ctx, shape, n):
    """descriptions written from names and keys: shape has the number of keys of each option"""
    opts, desc = [], ""
    for i, k in enumerate(shape):
        opts.append([text(ctx, f"n{i}.{j}", n, 32, not_="[],") for j in range(k + 1)])
        desc = desc + ("," if i else "") + opts[-1][0]
        for key in opts[-1][1:]:
            desc = desc + "[" + key + "]"
    got = split_field_access(desc)
    ctx.check([len(o) for o in got] == [len(o) for o in opts], "options", lambda: f"{desc!s}: {got}")
    for o, g in zip(opts, got):
        for x, y in zip(o, g):
            ctx.check(len(x) == len(y) and x == y, "keys", lambda: f"{desc!s}: {got}")
    ctx.reach("done")


KEYS = ("k", "1", "-1", "2x", "0")
MISSING = object()


class Tree:
    """any nested value, decided when it is looked at"""

    def __init__(self, ctx, depth):
        self.ctx, self.depth, self.memo = ctx, depth, {}

    def at(self, path):
        if path not in self.memo:
            kinds = ["leaf", "text", "none"] + (["dict", "list"] if len(path) < self.depth else [])
            k = self.ctx.choose(f"kind of {'.'.join(map(str, path))}", kinds) if path else "dict"
            self.memo[path] = {"leaf": lambda: Leaf(self.ctx.int("v" + "".join(map(str, path)))), "text": lambda: "some text",
                               "none": lambda: None,
                               "dict": lambda: AnyDict(self, path), "list": lambda: AnyList(self, path)}[k]()
        return self.memo[path]

    def has(self, path, k):
        return bool(self.ctx.bool(f"{'.'.join(map(str, path))} has {k}"))

    def resolve(self, value, keys):
        for k in keys:
            if isinstance(value, AnyDict):
                if k not in value:
                    return MISSING
                value = value[k]
            elif isinstance(value, AnyList):
                try:
                    i = int(k)
                except ValueError:
                    return MISSING
                if not -len(value) <= i < len(value):
                    return MISSING
                value = value[i]
            else:
                return MISSING
        return value


class Leaf:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "leaf"


class AnyDict(dict):
    def __init__(self, tree, path):
        super().__init__()
        self.tree, self.path = tree, path

    def __contains__(self, k):
        return self.tree.has(self.path, k)

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.tree.at(self.path + (k,))

    def get(self, k, d=None):
        return self[k] if k in self else d


class AnyList(list):
    def __init__(self, tree, path):
        super().__init__()
        self.tree, self.path = tree, path
        self.n = tree.ctx.pick(f"length of {'.'.join(map(str, path))}", 0, 2)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise TypeError(i)
        if not -self.n <= i < self.n:
            raise IndexError(i)
        return self.tree.at(self.path + (i % self.n,))


def h_access(ctx, shape, depth, nkeys):
    """the first option that is there, or an error of the sample; shape has the keys of each option"""
    tree = Tree(ctx, depth)
    value = tree.at(())
    opts = [[ctx.choose(f"name{i}", ["p", "q"][: i + 1])] + [ctx.choose(f"key{i}.{j}", KEYS[:nkeys]) for j in range(k)]
            for i, k in enumerate(shape)]
    err = got = None
    try:
        got = field_access(value, [list(o) for o in opts])
    except Exception as e:
        err = e
    for i, o in enumerate(opts):
        want = tree.resolve(value, o)
        if want is not MISSING:
            ctx.check(err is None, "found", lambda: f"{opts}: option {i} is there, but {err!r}")
            ctx.check(got is want, "value", lambda: f"{opts}: {got!r}, expected option {i}: {want!r}")
            ctx.reach(f"option {i}")
            return
    ctx.check(err is not None, "missing", lambda: f"{opts}: no option is there, got {got!r}")
    ctx.check(not isinstance(err, SYSTEM_EXCEPTIONS), "error", lambda: f"{opts}: {err!r}")
    ctx.reach("missing")


def factory(cls, root, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return cls(EPath(root), split_part="train", training=False, worker_config=WorkerConfig(rank=0, world_size=1, num_workers=0),
                   **k)


def run(f, horizon):
    got = []
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        sim = Sim(f.build(0), 0, 0)
        for _ in range(horizon):
            ev = sim.step()
            if ev is END:
                return got
            got.append(ev)
    return got + ["more"]


def layout(ctx, n, parts):
    """a data set of n samples, with any of the parts"""
    reset()
    fs = vfs.new()
    vfs.patch()
    members, has = [], []
    for i in range(n):
        has.append([p for p in parts if bool(ctx.bool(f"{i} has {p}"))])
        members += [(f"x{i}.{p}", True) for p in ["z"] + has[-1]]
    add_dataset(fs, "/vtfs/ds", {"s.tar": members}, symbolic=False)
    tar = fs.nodes["/vtfs/ds/s.tar"]
    data = {m: tar.data(i) for i, (m, _) in enumerate(members)}
    return has, lambda i, p: data[f"x{i}.{p}"]


def h_map(ctx, n, parts, shape, cls=Fields):
    """the samples of a mapped data set; shape has the number of options of each field"""
    has, data = layout(ctx, n, parts)
    opts = {k: [ctx.choose(f"{k}{j}", list(parts)) for j in range(m)] for k, m in shape.items()}
    sub = ctx.choose("subflavor", [None, "s"])
    subs = ctx.choose("subflavors", [None, {"x": 1}])
    failed = []
    f = factory(cls, "/vtfs/ds", field_map={k: ",".join(o) for k, o in opts.items()}, subflavor=sub, subflavors=subs,
                handler=lambda e, k: failed.append((k, e)))
    ctx.check(len(f) == n, "length", lambda: f"{len(f)}")
    got = run(f, n + 1)
    want, bad = [], []
    for i in range(n):
        src = {k: next((p for p in o if p in has[i]), None) for k, o in opts.items()}
        (want if all(src.values()) else bad).append((i, src))
    ctx.check([getattr(e, "__key__", e) for e in got] == [f"s.tar/x{i}" for i, _ in want], "samples",
              lambda: f"{show(got)}, expected {want} (map {opts})")
    for e, (i, src) in zip(got, want):
        ctx.check(type(e) is cls.__sample_type__, "type", lambda: f"{e}")
        for k, p in src.items():
            ctx.check(same(getattr(e, k), data(i, p)), "field", lambda: f"{k} of x{i}: {getattr(e, k)!r}, expected {p}")
        if cls is Optionals:
            ctx.check(("c" in src or e.c == "default") and ("d" in src or e.d == ["made"]), "default", lambda: f"{e}")
        ctx.check(e.__subflavor__ == sub and e.__subflavors__ == (subs or {}), "subflavors", lambda: f"{e}")
        ctx.check(tuple(e.__restore_key__)[-3:] == ("Webdataset", "s.tar", i), "restore key", lambda: f"{e.__restore_key__}")
    ctx.check([k for k, _ in failed] == [f"s.tar/x{i}" for i, _ in bad], "handled", lambda: f"{failed}, expected {bad}")
    ctx.reach("left out" if bad else "all")


def h_loader(ctx, n, parts, kind):
    """sample loader and part filter given as code"""
    has, data = layout(ctx, n, parts)
    keep = [p for p in list(parts) + ["z"] if bool(ctx.bool(f"keep {p}"))]
    fail = [bool(ctx.bool(f"fail{i}")) for i in range(n)]
    seen = []

    def loader(s):
        seen.append(dict(s))
        if fail[len(seen) - 1]:
            raise ValueError("loader")
        return {"a": s.get(parts[0]), "b": len(seen)}

    failed = []
    pf = list(keep) if kind == "list" else (lambda p: p in keep)
    f = factory(Fields, "/vtfs/ds", sample_loader=loader, part_filter=pf, subflavors={"x": 1}, handler=lambda e, k: failed.append(k))
    got = run(f, n + 1)
    ctx.check(len(seen) == n, "calls", lambda: f"{seen}")
    for i, s in enumerate(seen):
        ps = {k: v for k, v in s.items() if not k.startswith("__")}
        want = {p: data(i, p) for p in has[i] + ["z"] if p in keep}
        ctx.check(ps.keys() == want.keys() and all(same(ps[k], want[k]) for k in ps), "parts", lambda: f"x{i}: {ps}, expected {want}")
        ctx.check(s["__key__"] == f"s.tar/x{i}", "key", lambda: f"{s}")
    good = [i for i in range(n) if not fail[i]]
    ctx.check([getattr(e, "__key__", e) for e in got] == [f"s.tar/x{i}" for i in good], "samples", lambda: f"{show(got)}")
    ctx.check(failed == [f"s.tar/x{i}" for i in range(n) if fail[i]], "handled", lambda: f"{failed}")
    for e, i in zip(got, good):
        a = data(i, parts[0]) if parts[0] in has[i] and parts[0] in keep else None
        ctx.check(e.b == i + 1 and (e.a is None if a is None else same(e.a, a)), "fields", lambda: f"{e}")
        ctx.check(e.__subflavor__ is None and e.__subflavors__ == {"x": 1}, "subflavors", lambda: f"{e}")
    ctx.reach("failed" if any(fail) else "done")


def h_reject(ctx, cls, required):
    """what does not fit the sample type is rejected when the data set is made"""
    layout(ctx, 1, ("p",))
    names = [k for k in ("a", "b", "c", "d", "e") if bool(ctx.bool(f"maps {k}"))]
    known = {"a", "b"} if cls is Fields else {"a", "b", "c", "d"}
    k = {}
    if bool(ctx.bool("field map")):
        k["field_map"] = {x: "z" for x in names}
    if bool(ctx.bool("loader")):
        k["sample_loader"] = lambda s: {}
    if bool(ctx.bool("filter")):
        k["part_filter"] = ["z"]
    ok = ("field_map" in k) != ("sample_loader" in k) and ("part_filter" in k) == ("sample_loader" in k)
    if "field_map" in k:
        ok = ok and set(names) <= known and required <= set(names)
    err = None
    try:
        factory(cls, "/vtfs/ds", **k)
    except Exception as e:
        err = e
    ctx.check((err is None) == ok, "rejected", lambda: f"{k}, expected {'accepted' if ok else 'rejected'}: {err!r}")
    ctx.reach("accepted" if ok else "rejected")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("done",), weight=1, seconds=600):
        out.append(dict(name=name, fn=fn, reach=reach, bounds=bounds, weight=weight, seconds=seconds))

    for n in range(0, 7 if q else 9):
        add(f"split {n}", lambda c, n=n: h_split(c, n), f"every description of {n} characters",
            reach=("plain",) + (("options",) if n else ()) + (("nested",) if n > 3 else ()), weight=n)
    for shape, n in (((0,), 3), ((1,), 3), ((2,), 2), ((3,), 2), ((0, 0), 3), ((1, 0), 3), ((0, 2), 2), ((1, 1, 1), 2), ((2, 0, 2), 2)):
        add(f"written {shape}", lambda c, s=shape, n=n: h_written(c, s, n), f"{len(shape)} options, every name and key of {n} characters")
    for shape, depth, keys in (((0,), 1, 5), ((1,), 2, 5), ((2,), 3, 5), ((0, 0), 1, 5), ((1, 1), 2, 5), ((2, 1), 3, 3), ((0, 1, 1), 2, 3),
                               ((3, 0), 4, 3)) + (() if q else (((2, 1), 3, 4), ((2, 2), 3, 3), ((1, 1, 2), 3, 2), ((3, 1), 4, 2))):
        add(f"access {shape} {keys}", lambda c, s=shape, d=depth, k=keys: h_access(c, s, d, k),
            f"{len(shape)} options with {shape} keys out of {', '.join(KEYS[:keys])} in any nested value of depth {depth}",
            reach=("missing", "option 0") + (("option 1",) if len(shape) > 1 else ()), weight=sum(shape) * len(shape) * keys)
    P = ("p", "q", "r.s")
    add("map one option", lambda c: h_map(c, 2, P[:2], {"a": 1, "b": 1}), "2 samples with any of 2 parts", reach=("all", "left out"))
    add("map options", lambda c: h_map(c, 1 if q else 2, P, {"a": 2, "b": 2}), "samples with any of 3 parts, 2 options per field",
        reach=("all", "left out"), weight=4)
    add("map three options", lambda c: h_map(c, 1, P, {"a": 3, "b": 1}), "1 sample with any of 3 parts, up to 3 options",
        reach=("all", "left out"), weight=4)
    add("map order", lambda c: h_map(c, 3, P[:1], {"b": 1, "a": 1}), "3 samples with or without their part", reach=("all", "left out"))
    for shape in ({"a": 1, "b": 1}, {"a": 1, "b": 1, "c": 1}, {"a": 1, "b": 1, "d": 1}):
        add(f"map defaults {len(shape)} {max(shape)}", lambda c, s=shape: h_map(c, 1, P[:2], s, Optionals), "1 sample with any of 2 parts",
            reach=("all", "left out"))
    for kind in ("list", "code"):
        add(f"loader {kind}", lambda c, k=kind: h_loader(c, 2, P[:2], k), "2 samples with any of 2 parts, any filter, any failure",
            reach=("done", "failed"), weight=2)
    add("accepted", lambda c: h_reject(c, Fields, {"a", "b"}), "any field map, loader and filter of a type with 2 required fields",
        reach=("accepted", "rejected"))
    add("accepted defaults", lambda c: h_reject(c, Optionals, {"a", "b"}),
        "any field map, loader and filter of a type with 2 required fields and 2 with defaults", reach=("accepted", "rejected"))
    return out
