"""Configurations: values have their declared type or are rejected; defaults, precedence and round trips."""

import contextlib
import dataclasses
import io
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, Type, Union

from megatron.energon.dataset_config import get_dataset_from_config, load_config
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.base_dataset import Sample
from megatron.energon.flavors.crude import CrudeWebdataset
from megatron.energon.typed_converter import raw_to_instance, raw_to_typed, safe_call_function, to_json_object
from megatron.energon.worker import WorkerConfig

from vt import vfs
from vt.env import reset, same
from vt.harness.c03 import ASSUMPTIONS as BASE_ASSUMPTIONS
from vt.harness.c03 import add_dataset, simple

ASSUMPTIONS = [BASE_ASSUMPTIONS[0],
               "numbers are unbounded symbolic integers; elements of sets, texts, keys and structures are chosen from the stated alternatives",
               "booleans for a declared int or float, and equal values of other types for a Literal, may be accepted or rejected"]


@dataclass
class Inner:
    p: int
    q: str = "dq"


@dataclass
class Rec:
    a: int
    b: Optional[str] = None
    c: Tuple[int, ...] = (1, 2)
    e: Inner = field(default_factory=lambda: Inner(p=5))
    f: int = field(init=False, default=3)


@dataclass
class Rec2:
    b: Literal["x", "y"] = "y"
    d: List[int] = field(default_factory=lambda: [7])
    g: Set[int] = field(default_factory=lambda: {1, 2})


class Nt(NamedTuple):
    a: int
    b: str = "nb"
    c: Optional[Tuple[int, int]] = (3, 4)


@dataclass
class Sub(Inner):
    r: float = 1.5


class Named(NamedTuple):
    one: Inner
    two: List[Inner]


MISSING = object()


class Reject(Exception):
    pass


class DontCare(Exception):
    pass


def is_int(x):
    return not isinstance(x, (str, bool, float, list, dict, tuple, set)) and x is not None and not dataclasses.is_dataclass(x)


def conv(raw, t, strict):
    """the value of type t that raw stands for"""
    org = getattr(t, "__origin__", None)
    args = getattr(t, "__args__", ())
    if t is Any:
        return raw
    if t is int or t is float:
        if isinstance(raw, bool):
            raise DontCare()
        if is_int(raw) or t is float and isinstance(raw, float):
            return raw
        raise Reject()
    if t in (str, bool, type(None)):
        if t is bool and isinstance(raw, bool) or t is str and isinstance(raw, str) or t is type(None) and raw is None:
            return raw
        raise Reject()
    if t in (dict, list):
        if type(raw) is t:
            return raw
        raise Reject()
    if t is EPath:
        if not isinstance(raw, str):
            raise Reject()
        return EPath(raw)
    if org is Literal:
        for v in args:
            if type(v) is type(raw) and not isinstance(raw, (list, dict)) and v == raw:
                return raw
        if isinstance(raw, bool) or is_int(raw):
            raise DontCare()
        raise Reject()
    if org is Union:
        for a in args:
            try:
                return conv(raw, a, strict)
            except Reject:
                pass
        raise Reject()
    if org in (list, set, tuple):
        if not isinstance(raw, list):
            raise Reject()
        if org is tuple and not (len(args) == 2 and args[1] is Ellipsis):
            if len(raw) != len(args):
                raise Reject()
            return tuple(conv(r, a, strict) for r, a in zip(raw, args))
        out = [conv(r, args[0], strict) for r in raw]
        if org is set:
            for i, x in enumerate(out):
                if any(bool(x == y) for y in out[:i]):
                    raise Reject()
        return {list: list, set: set, tuple: tuple}[org](out)
    if org is dict:
        if not isinstance(raw, dict):
            raise Reject()
        return {k: conv(v, args[1], strict) for k, v in raw.items()}
    # records
    if not isinstance(raw, dict):
        raise Reject()
    kw, care = {}, None
    fs = fields(t)
    if strict and not set(raw) <= set(fs):
        raise Reject()
    for n, (ft, default) in fs.items():
        if n in raw:
            try:
                kw[n] = conv(raw[n], ft, strict)
            except DontCare as e:
                care = e
        elif default is MISSING:
            raise Reject()
        else:
            kw[n] = default()
    if care is not None:
        raise care
    return t(**kw)


def fields(t):
    if dataclasses.is_dataclass(t):
        return {f.name: (f.type, (lambda f=f: f.default) if f.default is not dataclasses.MISSING
                         else f.default_factory if f.default_factory is not dataclasses.MISSING else MISSING)
                for f in dataclasses.fields(t) if f.init}
    return {n: (ft, (lambda n=n: t._field_defaults[n]) if n in t._field_defaults else MISSING) for n, ft in t.__annotations__.items()}


LEAVES = ("int", "text", "float", "bool", "none", "list", "dict")


def raw_value(ctx, t, path, wrong=None):
    """a raw value of the form of type t, but for one place (wrong: places left)"""
    wrong = [1] if wrong is None else wrong
    org = getattr(t, "__origin__", None)
    args = getattr(t, "__args__", ())
    forms = []
    if org in (list, set, tuple) and not t in (list, dict):
        forms = ["items"]
    elif org is dict:
        forms = ["entries"]
    elif dataclasses.is_dataclass(t) or isinstance(t, type) and issubclass(t, tuple):
        forms = ["fields"]
    elif org is Union:
        forms = [f"alt{i}" for i in range(len(args))]
    elif t is int:
        forms = ["int"]
    elif t is str or t is EPath:
        forms = ["text"]
    elif t is float:
        forms = ["float", "int"]
    elif t is bool:
        forms = ["bool"]
    elif t is type(None):
        forms = ["none"]
    elif org is Literal:
        forms = [f"value{i}" for i in range(len(args))]
    k = ctx.choose(f"{path} is", forms + [x for x in LEAVES if x not in forms and not (x == "list" and "items" in forms)] if wrong[0] else forms)
    wrong[0] -= k not in forms
    if k.startswith("alt"):
        return raw_value(ctx, args[int(k[3:])], path + "|" + k[3:], wrong)
    if k.startswith("value"):
        return args[int(k[5:])]
    if k == "items":
        ns = [len(args)] if org is tuple and Ellipsis not in args else [2]
        n = ctx.choose(f"{path} length", sorted({0, 1, *ns, 3 if ns[0] == 2 and org is tuple else ns[0]}))
        ts = list(args) if org is tuple and Ellipsis not in args else [args[0]] * 4
        out = [raw_value(ctx, ts[i] if i < len(ts) else int, f"{path}.{i}", wrong) for i in range(n)]
        if org is set:  # (hashed)
            out = [ctx.pick(f"{path}.{i} element", 0, 2) if is_int(x) else x for i, x in enumerate(out)]
        return out
    if k == "entries":
        return {x: raw_value(ctx, args[1], f"{path}.{x}", wrong) for x in ("k1", "k-2")[:ctx.pick(f"{path} entries", 0, 2)]}
    if k == "fields":
        out = {}
        for n, (ft, _) in fields(t).items():
            if bool(ctx.bool(f"{path} has {n}")):
                out[n] = raw_value(ctx, ft, f"{path}.{n}", wrong)
        if wrong[0] and bool(ctx.bool(f"{path} has more")):
            # an unknown name, or that of a field which is not an argument
            out[ctx.choose(f"{path} more", ["more"] + ([f.name for f in dataclasses.fields(t) if not f.init] if dataclasses.is_dataclass(t) else []))] = 1
            wrong[0] -= 1
        return out
    return {"int": lambda: ctx.int(f"{path} int"), "text": lambda: "text", "float": lambda: 0.5, "bool": lambda: bool(ctx.bool(f"{path} bool")),
            "none": lambda: None, "list": lambda: [ctx.int(f"{path} elem")], "dict": lambda: {"k": ctx.int(f"{path} entry")}}[k]()


def equal(a, b):
    if dataclasses.is_dataclass(a):
        return type(a) is type(b) and all(equal(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, set):
        return type(a) is type(b) and len(a) == len(b) and all(any(equal(x, y) for y in b) for x in a)
    if isinstance(a, dict):
        return type(a) is type(b) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if is_int(a) and not isinstance(a, EPath):
        return is_int(b) and same(a, b)
    return type(a) is type(b) and a == b


def expected(raw, t, strict):
    try:
        return conv(raw, t, strict), None
    except (Reject, DontCare) as e:
        return None, e


def h_typed(ctx, t):
    """any raw value, converted to the type"""
    strict = bool(ctx.bool("strict"))
    raw = raw_value(ctx, t, "raw")
    want, why = expected(raw, t, strict)
    err = got = None
    try:
        got = raw_to_typed(raw, t, strict)
    except Exception as e:
        err = e
    if isinstance(why, DontCare):
        return ctx.reach("other")
    if why is not None:
        ctx.check(err is not None, "rejected", lambda: f"{raw!r} as {t} (strict {strict}) gave {got!r}")
        ctx.check(isinstance(err, ValueError), "error", lambda: f"{raw!r} as {t}: {err!r}")
        return ctx.reach("rejected")
    ctx.check(err is None, "accepted", lambda: f"{raw!r} as {t} (strict {strict}): {err!r}")
    ctx.check(equal(want, got), "value", lambda: f"{raw!r} as {t}: {got!r}, expected {want!r}")
    ctx.reach("accepted")


def typed_value(ctx, t, path):
    """any value of the type"""
    org = getattr(t, "__origin__", None)
    args = getattr(t, "__args__", ())
    if t is int:
        return ctx.int(path)
    if t is str:
        return ctx.choose(path, ["", "text"])
    if t is float:
        return 0.5
    if t is bool:
        return bool(ctx.bool(path))
    if t is type(None):
        return None
    if org is Union:
        i = ctx.pick(f"{path} alt", 0, len(args) - 1)
        return typed_value(ctx, args[i], f"{path}|{i}")
    if org is tuple and Ellipsis not in args:
        return tuple(typed_value(ctx, a, f"{path}.{i}") for i, a in enumerate(args))
    if org in (list, tuple):
        n = ctx.pick(f"{path} n", 0, 2)
        return org(typed_value(ctx, args[0], f"{path}.{i}") for i in range(n))
    if org is dict:
        return {k: typed_value(ctx, args[1], f"{path}.{k}") for k in ("k", "l-m")[:ctx.pick(f"{path} n", 0, 2)]}
    return t(**{n: typed_value(ctx, ft, f"{path}.{n}") for n, (ft, _) in fields(t).items()})


def plain(x):
    return isinstance(x, (str, bool, float, type(None))) or is_int(x) or (
        type(x) is list and all(plain(y) for y in x)) or (type(x) is dict and all(isinstance(k, str) and plain(v) for k, v in x.items()))


def h_round(ctx, t):
    """written and read again"""
    v = typed_value(ctx, t, "v")
    raw = to_json_object(v)
    ctx.check(plain(raw), "plain", lambda: f"{v!r} is written as {raw!r}")
    back = raw_to_typed(raw, t, True)
    ctx.check(equal(v, back), "round trip", lambda: f"{v!r} became {back!r}")
    ctx.reach("done")


# -- calls

CALLS = []


def fn_plain(a: int, b: str = "db", *, c: Optional[List[int]] = None):
    CALLS.append(dict(a=a, b=b, c=c))
    return "plain"


def fn_loose(a: int, b: str = None, c: Tuple[int, ...] = (1,), **kw: int):
    CALLS.append(dict(a=a, b=b, c=c, **kw))
    return "loose"


class Made:
    def __init__(self, a: int, b: Inner, c=None, d: float = 0.25):
        CALLS.append(dict(a=a, b=b, c=c, d=d))
        self.args = (a, b, c, d)


SPECS = {
    "plain": (fn_plain, dict(a=(int, MISSING), b=(str, "db"), c=(Optional[List[int]], None)), None),
    "loose": (fn_loose, dict(a=(int, MISSING), b=(str, None), c=(Tuple[int, ...], (1,))), int),
    "class": (Made, dict(a=(int, MISSING), b=(Inner, MISSING), c=(Any, None), d=(float, 0.25)), None),
}


def arguments(ctx, params):
    raw, wrong = {}, [1]
    for n, (t, _) in params.items():
        if bool(ctx.bool(f"has {n}")):
            raw[n] = raw_value(ctx, t, n, wrong)
    if bool(ctx.bool("has more")):
        raw["more"] = raw_value(ctx, int, "more", wrong)
    return raw


def call_expected(raw, params, more, strict):
    """the arguments of the call"""
    out, care = {}, None
    rest = {k: v for k, v in raw.items() if k not in params}
    if rest and more is None and strict:
        raise Reject()
    todo = [(n, t, d) for n, (t, d) in params.items()] + ([(n, more, MISSING) for n in rest] if more is not None else [])
    for n, t, d in todo:
        if n not in raw:
            if d is MISSING:
                raise Reject()
            out[n] = d
            continue
        try:
            out[n] = conv(raw[n], t, strict)
        except DontCare as e:
            care = e
    if care:
        raise care
    return out


def h_call(ctx, name, how):
    """calls with arguments of a configuration"""
    fn, params, more = SPECS[name]
    del CALLS[:]
    strict = bool(ctx.bool("strict"))
    raw = arguments(ctx, params)
    given = dict(raw)
    want = why = None
    try:
        want = call_expected(raw, params, more, strict)
    except (Reject, DontCare) as e:
        why = e
    err = got = None
    try:
        if how == "call":
            got = safe_call_function(raw, fn, strict=strict)
        else:
            key = "__class__" if isinstance(fn, type) else "__function__"
            conf = {"__module__": __name__, key: fn.__name__, **raw}
            before = dict(conf)
            got = (raw_to_instance(conf, Any, strict) if how == "instance" else raw_to_typed(conf, Any, strict, allow_imports=True)
                   if how == "typed" else load_config(conf, default_type=dict, strict=strict))
            ctx.check(conf == before, "input", lambda: f"{conf}")
    except Exception as e:
        err = e
    ctx.check(list(raw) == list(given) and all(raw[k] is given[k] for k in raw), "input", lambda: f"{raw}")
    if isinstance(why, DontCare):
        return ctx.reach("other")
    if why is not None:
        ctx.check(err is not None and CALLS == [], "rejected", lambda: f"{name}({raw!r}) gave {got!r} {CALLS}")
        return ctx.reach("rejected")
    ctx.check(err is None, "accepted", lambda: f"{name}({raw!r}) (strict {strict}): {err!r}")
    ctx.check(len(CALLS) == 1 and CALLS[0].keys() == want.keys() and all(equal(want[k], CALLS[0][k]) for k in want), "arguments",
              lambda: f"{name}({raw!r}): {CALLS}, expected {want}")
    ctx.check(isinstance(got, Made) if fn is Made else got == name, "result", lambda: f"{got!r}")
    ctx.reach("accepted")


def fn_list(a: int, b: str, c: int = 9, *more: int):
    CALLS.append((a, b, c, *more))
    return "list"


def h_positional(ctx, n):
    """arguments given as a list"""
    del CALLS[:]
    ts = [int, str, int, int, int]
    wrong = [2]
    raw = [raw_value(ctx, ts[i], f"arg{i}", wrong) for i in range(n)]
    care = rej = False
    want = []
    for r, t in zip(raw, ts):
        v, why = expected(r, t, False)
        care |= isinstance(why, DontCare)
        rej |= isinstance(why, Reject)
        want.append(v)
    err = None
    try:
        safe_call_function(list(raw), fn_list)
    except Exception as e:
        err = e
    if rej or n < 2:
        ctx.check(err is not None and CALLS == [], "rejected", lambda: f"{raw!r} gave {CALLS}")
        return ctx.reach("rejected")
    if care:
        return ctx.reach("other")
    ctx.check(err is None, "accepted", lambda: f"{raw!r}: {err!r}")
    want = tuple(want + ([9] if n == 2 else []))
    ctx.check(len(CALLS) == 1 and equal(want, CALLS[0]), "arguments", lambda: f"{raw!r}: {CALLS}, expected {want}")
    ctx.reach("accepted")


def h_import(ctx):
    """classes, types and functions named in a configuration"""
    here, there = __name__, "no.such.module"
    module = ctx.choose("module", [here, "megatron.energon", there, None])
    name = ctx.choose("name", ["Inner", "Sub", "Made", "fn_plain", "CaptioningSample", "ABSENT", None])
    key = ctx.choose("key", ["__class__", "__function__"])
    t = ctx.choose("type", ["Type[Inner]", "Type[Sample]", "Callable"])
    typ = {"Type[Inner]": Type[Inner], "Type[Sample]": Type[Sample], "Callable": Callable}[t]
    conf = {k: v for k, v in (("__module__", module), (key, name)) if v is not None}
    import megatron.energon as me
    found = None
    if module == here:
        found = globals().get(name or "")
    elif module in ("megatron.energon", there):
        found = getattr(me, name or "", None)
    if t == "Callable":
        ok = key == "__function__" and callable(found)
        typ = Callable[..., Any]
    else:
        base = Inner if t == "Type[Inner]" else Sample
        ok = key == "__class__" and isinstance(found, type) and issubclass(found, base)
    err = got = None
    try:
        got = raw_to_typed(conf, typ, True, allow_imports=True)
    except Exception as e:
        err = e
    if ok:
        ctx.check(err is None and got is found, "found", lambda: f"{conf} as {t}: {got!r} {err!r}")
        return ctx.reach("found")
    if "__module__" in conf and key in conf:
        ctx.check(err is not None, "rejected", lambda: f"{conf} as {t} gave {got!r}")
    ctx.reach("rejected")


def h_defaults(ctx):
    """a configuration is merged over the defaults"""
    del CALLS[:]
    names = ("a", "b", "c")
    conf = {n: {"a": ctx.int("conf a"), "b": "cb", "c": None}[n] for n in names if bool(ctx.bool(f"conf has {n}"))}
    dflt = {n: {"a": ctx.int("default a"), "b": "xb", "c": [ctx.int("default c")]}[n] for n in names if bool(ctx.bool(f"default has {n}"))}
    some = bool(ctx.bool("defaults"))
    before = dict(conf), dict(dflt)
    typed = bool(ctx.bool("named in the configuration"))
    data = {"__module__": __name__, "__function__": "fn_plain", **conf} if typed else conf
    form = ctx.choose("form", ["dict", "file"])
    if form == "file":
        fs = vfs.new()
        vfs.patch()
        import yaml
        text = yaml.safe_dump({k: v if not is_int(v) else 11 for k, v in data.items()})
        if "a" in conf:
            conf["a"] = 11
        fs.text("/vtfs/conf.yaml", text)
    err = None
    try:
        load_config(data if form == "dict" else EPath("/vtfs/conf.yaml"), default_type=fn_plain if not typed else dict,
                    default_kwargs=dflt if some else None)
    except Exception as e:
        err = e
    want = {**dict(b="db", c=None), **(dflt if some else {}), **conf}
    if form == "dict":
        ctx.check(conf == before[0], "input", lambda: f"{conf}")
    ctx.check(dflt == before[1], "input", lambda: f"{dflt}")
    if "a" not in want:
        ctx.check(err is not None, "rejected", lambda: f"{CALLS}")
        return ctx.reach("rejected")
    ctx.check(err is None and len(CALLS) == 1 and equal({k: want[k] for k in "abc"}, CALLS[0]), "merged", lambda: f"{CALLS}, expected {want}: {err!r}")
    ctx.reach("merged")


def h_dataset(ctx):
    """a data set of its files and arguments: flavors, split and settings"""
    reset()
    fs = vfs.new()
    vfs.patch()
    add_dataset(fs, "/vtfs/ds", {"s.tar": simple(2), "t.tar": simple(1)}, symbolic=False)
    fs.text("/vtfs/ds/.nv-meta/other.yaml", "split_parts:\n  train: [s.tar]\n  val: [t.tar]\nexclude: []\n")
    own_sub = ctx.choose("file subflavor", [None, "f"])
    own_subs = ctx.choose("file subflavors", [None, {}, {"x": "f", "y": "f"}])
    sub = ctx.choose("subflavor", [None, "g"])
    subs = ctx.choose("subflavors", [None, {}, {"x": "g", "z": "g"}])
    split = ctx.choose("split", [("split.yaml", "train"), ("other.yaml", "train"), ("other.yaml", "val"), ("other.yaml", "test")])
    training = bool(ctx.bool("training"))
    kw = {}
    if bool(ctx.bool("has setting")):
        kw["shuffle_over_epochs"] = ctx.int("setting", 1)
    import yaml
    conf = {"__module__": "megatron.energon", "__class__": "CrudeWebdataset", "auto_decode": False}
    if own_sub:
        conf["subflavor"] = own_sub
    if own_subs is not None:
        conf["subflavors"] = own_subs
    name = ctx.choose("config", ["dataset.yaml", "mine.yaml"])
    fs.text(f"/vtfs/ds/.nv-meta/{name}", yaml.safe_dump(conf))
    given = None if subs is None else dict(subs)
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    typ = ctx.choose("sample type", [None, dict, Sample])
    err = ds = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ds = get_dataset_from_config(EPath("/vtfs/ds"), dataset_config=name, split_config=split[0], split_part=split[1],
                                         training=training, subflavor=sub, subflavors=subs, worker_config=wc, sample_type=typ, **kw)
    except Exception as e:
        err = e
    ctx.check(subs == given, "input", lambda: f"{subs}")
    if split[1] == "test" or typ is Sample:
        ctx.check(err is not None, "rejected", "wrong split or type")
        return ctx.reach("rejected")
    ctx.check(err is None, "accepted", lambda: f"{err!r}")
    ctx.check(type(ds) is CrudeWebdataset and ds.training == training and ds.worker_config is wc, "data set", lambda: f"{ds}")
    ctx.check([s.name for s in ds.shards] == {"split.yaml": ["s.tar", "t.tar"], "other.yaml": ["s.tar"] if split[1] == "train" else ["t.tar"]}[
        split[0]], "shards", lambda: f"{ds.shards}")
    ctx.check(same(ds.shuffle_over_epochs, kw.get("shuffle_over_epochs", 1)), "setting", lambda: f"{ds.shuffle_over_epochs}")
    want = {**(own_subs or {}), **(subs or {})}
    out = ds._sample_loader({"__key__": "k", "__restore_key__": ("r",)})
    ctx.check(out["__subflavors__"] == want, "subflavors", lambda: f"{out}, expected {want}")
    ctx.check(out["__subflavor__"] == (sub or own_sub), "subflavor", lambda: f"{out}, expected {sub or own_sub}")
    ctx.reach("loaded")


TYPES = {
    "int": int, "str": str, "float": float, "bool": bool, "None": type(None), "Any": Any, "dict": dict, "list": list, "EPath": EPath,
    "Literal": Literal["a", "b", 3], "Optional[int]": Optional[int], "Union[int, str]": Union[int, str],
    "Union[List[int], str, None]": Union[List[int], str, None], "List[int]": List[int], "Set[int]": Set[int],
    "Tuple[int, ...]": Tuple[int, ...], "Tuple[int, str]": Tuple[int, str], "Dict[str, int]": Dict[str, int],
    "Dict[str, List[str]]": Dict[str, List[str]], "Inner": Inner, "Sub": Sub, "Nt": Nt, "List[Inner]": List[Inner],
    "Union[Inner, str]": Union[Inner, str], "Union[Inner, Nt]": Union[Inner, Nt], "Dict[str, Inner]": Dict[str, Inner],
    "Optional[Nt]": Optional[Nt], "Tuple[Inner, int]": Tuple[Inner, int], "Tuple[Inner, ...]": Tuple[Inner, ...],
    "Optional[Inner]": Optional[Inner], "Tuple[()]": Tuple[()], "Rec": Rec, "Rec2": Rec2, "Named": Named,
    "Union[List[Inner], Dict[str, Inner]]": Union[List[Inner], Dict[str, Inner]],
}
ALL = ("Any",)


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("done",), weight=1, seconds=600):
        out.append(dict(name=name, fn=fn, reach=reach, bounds=bounds, weight=weight, seconds=seconds))

    for n, t in TYPES.items():
        add(f"typed {n}", lambda c, t=t: h_typed(c, t), f"any raw value of depth 3 as {n}",
            reach=("accepted",) + (("rejected",) if n not in ALL else ()), weight={"Rec": 20, "Rec2": 20, "Named": 9, "Nt": 4}.get(n, 1))
    for n in ("int", "Optional[int]", "List[int]", "Tuple[int, ...]", "Tuple[int, str]", "Dict[str, int]", "Dict[str, List[str]]", "Inner",
              "Sub", "Nt", "List[Inner]", "Dict[str, Inner]", "Optional[Nt]", "Tuple[Inner, int]", "Rec", "Named"):
        add(f"round trip {n}", lambda c, t=TYPES[n]: h_round(c, t), f"any {n} of depth 3")
    for n in SPECS:
        for how in ("call", "instance", "typed", "config"):
            add(f"{how} {n}", lambda c, n=n, how=how: h_call(c, n, how), "any arguments", reach=("accepted", "rejected"), weight=3)
    for n in (0, 1, 2, 3, 5):
        add(f"positional {n}", lambda c, n=n: h_positional(c, n), f"{n} arguments", reach=("accepted", "rejected") if n > 1 else ("rejected",))
    add("named", h_import, "any module, name and type", reach=("found", "rejected"))
    add("defaults", h_defaults, "any arguments and defaults", reach=("merged", "rejected"))
    add("data set", h_dataset, "any flavors, split, settings", reach=("loaded", "rejected"), weight=3)
    return out
