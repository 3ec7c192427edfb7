"""Batches: every field of every sample at its place, padded with zeros; types of samples and batches."""

import dataclasses
from dataclasses import dataclass
from typing import Any, NamedTuple, Optional

import torch
import z3

from megatron.energon.flavors.base_dataset import PinMemoryMixin, Sample
from megatron.energon.task_encoder import base as te_base
from megatron.energon.task_encoder.base import (
    Batch,
    DefaultTaskEncoder,
    TaskEncoder,
    batch_list,
    batch_pad_stack,
    batch_stack,
    generic_batch,
)

from megatron.energon.wrappers import mix_batch_dataset
from megatron.energon.wrappers.mix_batch_dataset import concat_pad, generic_concat, homogeneous_concat_mix

from vt.engine import SymInt, vand, vite, vor
from vt.env import same

ASSUMPTIONS = [
    "tensors are functions from positions to values, with symbolic (unbounded) sizes; the operations on them (new_zeros, slices, "
    "assignment, stack, pad) are modelled in this file, and real tensors are used when a trace is replayed",
    "the tensors of one field have the same number of dimensions and the same dtype",
]

VAL = {n: z3.Function(f"elem{n}", *[z3.IntSort()] * (n + 2)) for n in range(5)}


def zi(x):
    return x.e if isinstance(x, SymInt) else z3.IntVal(int(x))


class Store:
    """elements as a function of the position"""

    def __init__(self, shape, get):
        self.shape, self.get = list(shape), get


class Tensor:
    """a view into a store: per dimension of the store an int, or (start, size)"""

    __vt_type__ = torch.Tensor

    def __init__(self, store, view=None):
        self.store = store
        self.view = [(0, s) for s in store.shape] if view is None else view

    @property
    def shape(self):
        return tuple(v[1] for v in self.view if isinstance(v, tuple))

    @property
    def ndim(self):
        return len(self.shape)

    def dim(self):
        return self.ndim

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def __len__(self):
        return int(self.shape[0])

    def at(self, pos):
        it = iter(pos)
        return self.store.get([v if not isinstance(v, tuple) else v[0] + next(it) for v in self.view])

    def snapshot(self):
        get, view = self.store.get, self.view

        def at(pos):
            it = iter(pos)
            return get([v if not isinstance(v, tuple) else v[0] + next(it) for v in view])
        return at

    def _full(self, shape, value):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        return Tensor(Store(shape, lambda pos: value))

    def new_zeros(self, *shape, **k):
        return self._full(shape, 0)

    def new_empty(self, *shape, **k):
        return self._full(shape, SymInt(z3.FreshInt("uninitialised")))

    def new_full(self, shape, value, **k):
        return self._full(shape, value)

    def fill_(self, v):
        self[...] = v
        return self

    def zero_(self):
        return self.fill_(0)

    def _index(self, idx):
        idx = list(idx) if isinstance(idx, tuple) else [idx]
        if any(i is Ellipsis for i in idx):
            k = next(j for j, i in enumerate(idx) if i is Ellipsis)
            idx[k:k + 1] = [slice(None)] * (self.ndim - len(idx) + 1)
        if len(idx) > self.ndim:
            raise IndexError("too many indices for tensor")
        idx += [slice(None)] * (self.ndim - len(idx))
        out, it = [], iter(idx)
        for v in self.view:
            if not isinstance(v, tuple):
                out.append(v)
                continue
            i, (start, n) = next(it), v
            if isinstance(i, slice):
                assert i.step in (None, 1)
                lo, hi = (0 if i.start is None else self._clip(i.start, n)), (n if i.stop is None else self._clip(i.stop, n))
                out.append((start + lo, vite(hi < lo, 0, hi - lo)))
            else:
                if not -n <= i or not i < n:
                    raise IndexError("index out of range")
                out.append(start + (i + n if i < 0 else i))
        return Tensor(self.store, out)

    @staticmethod
    def _clip(i, n):
        i = vite(i < 0, i + n, i)
        return vite(i < 0, 0, vite(i > n, n, i))

    def __getitem__(self, idx):
        return self._index(idx)

    def narrow(self, dim, start, length):
        idx = [slice(None)] * self.ndim
        idx[dim] = slice(start, start + length)
        return self._index(tuple(idx))

    def copy_(self, value):
        self[...] = value
        return self

    def __setitem__(self, idx, value):
        t = self._index(idx)
        if isinstance(value, Tensor):
            vs, src = value.shape, value.snapshot()
            if len(vs) > t.ndim:
                raise RuntimeError("shape mismatch")
            vs = (1,) * (t.ndim - len(vs)) + tuple(vs)
            lead = t.ndim - value.ndim
            one = []
            for a, b in zip(t.shape, vs):
                if not bool(a == b) and not bool(b == 1):
                    raise RuntimeError("The expanded size of the tensor must match the existing size")
                one.append(b)
        else:
            vs = None
        old, view = self.store.get, t.view

        def get(pos):
            cond, rel = [], []
            for v, p in zip(view, pos):
                if isinstance(v, tuple):
                    cond += [p >= v[0], p < v[0] + v[1]]
                    rel.append(p - v[0])
                else:
                    cond.append(p == v)
            if vs is None:
                new = value
            else:
                new = src([vite(b == 1, 0, r) for b, r in zip(one, rel)][lead:])
            return vite(vand(*cond), new, old(pos))

        self.store.get = get

    def unsqueeze(self, d):
        src, n = self.snapshot(), self.ndim
        d = d % (n + 1)
        shape = list(self.shape)
        shape.insert(d, 1)
        return Tensor(Store(shape, lambda pos: src(pos[:d] + pos[d + 1:])))

    def pin_memory(self, device=None):
        return Pinned(self)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return TORCH[func](*args, **(kwargs or {}))


class Pinned:
    def __init__(self, t):
        self.t = t


def t_stack(ts, dim=0):
    ts = list(ts)
    for t in ts[1:]:
        if t.ndim != ts[0].ndim or not all(bool(a == b) for a, b in zip(t.shape, ts[0].shape)):
            raise RuntimeError("stack expects each tensor to be equal size")
    dim = dim % (ts[0].ndim + 1)
    src = [t.snapshot() for t in ts]
    shape = list(ts[0].shape)
    shape.insert(dim, len(ts))

    def get(pos):
        rest = pos[:dim] + pos[dim + 1:]
        out = src[-1](rest)
        for i in range(len(ts) - 1):
            out = vite(pos[dim] == i, src[i](rest), out)
        return out
    return Tensor(Store(shape, get))


def t_pad(t, pad, mode="constant", value=None):
    assert mode == "constant"
    src, n = t.snapshot(), t.ndim
    before = [0] * n
    shape = list(t.shape)
    for k in range(len(pad) // 2):
        d = n - 1 - k
        before[d] = pad[2 * k]
        shape[d] = shape[d] + pad[2 * k] + pad[2 * k + 1]
    sizes = list(t.shape)

    def get(pos):
        rel = [p - b for p, b in zip(pos, before)]
        return vite(vand(*[vand(r >= 0, r < s) for r, s in zip(rel, sizes)]), src(rel), 0 if value is None else value)
    return Tensor(Store(shape, get))


def t_cat(ts, dim=0):
    ts = list(ts)
    dim = dim % ts[0].ndim
    for t in ts[1:]:
        if t.ndim != ts[0].ndim or not all(d == dim or bool(a == b) for d, (a, b) in enumerate(zip(t.shape, ts[0].shape))):
            raise RuntimeError("Sizes of tensors must match")
    src, sizes = [t.snapshot() for t in ts], [t.shape[dim] for t in ts]
    shape = list(ts[0].shape)
    shape[dim] = sum(sizes)

    def get(pos):
        end = shape[dim]
        out = None
        for s, n in reversed(list(zip(src, sizes))):
            start = end - n
            v = s(pos[:dim] + [pos[dim] - start] + pos[dim + 1:])
            out = v if out is None else vite(pos[dim] < end, v, out)
            end = start
        return out
    return Tensor(Store(shape, get))


TORCH = {torch.stack: t_stack, torch.cat: t_cat, torch.concat: t_cat, torch.nn.functional.pad: t_pad,
         torch.zeros_like: lambda t, **k: t.new_zeros(t.shape), torch.Tensor.copy_: Tensor.copy_}


class Torch:
    """torch, making tensors of the model"""

    def __getattr__(self, n):
        return getattr(torch, n)

    def zeros(self, *shape, **k):
        return Tensor(Store([], None))._full(shape, 0)

    def full(self, shape, value, **k):
        return Tensor(Store([], None))._full((shape,), value)


def is_symbolic(ctx):
    return isinstance(ctx.int("mode", 0, 1), SymInt)


class Source:
    """tensor i of the run; real tensors on a replay"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0
        self.symbolic = is_symbolic(ctx)
        te_base.torch = mix_batch_dataset.torch = Torch() if self.symbolic else torch

    def tensor(self, ndim, shape=None):
        i = self.n
        self.n += 1
        shape = [self.ctx.int(f"t{i}.{d}", 0) for d in range(ndim)] if shape is None else shape
        if self.symbolic:
            t = Tensor(Store(shape, lambda pos: SymInt(VAL[ndim](z3.IntVal(i), *[zi(p) for p in pos]))))
        else:
            size = 1
            for s in shape:
                size *= int(s)
            if size > 10 ** 6:
                shape = [min(int(s), 7 + j) for j, s in enumerate(shape)]
                size = 1
                for s in shape:
                    size *= s
            t = (torch.arange(size) + 1000 * (i + 1) * 1000).reshape([int(s) for s in shape])
        return t


def same_element(out, pos, t, tpos, inside):
    """out at pos is t at tpos if inside, else 0"""
    if isinstance(out, torch.Tensor):
        pos, tpos = tuple(int(p) for p in pos), tuple(int(p) for p in tpos)
        return int(out[pos]) == (int(t[tpos]) if bool(inside) else 0)
    return out.at(list(pos)) == vite(inside, t.at(list(tpos)), 0)


def is_tensor(x):
    return isinstance(x, (Tensor, torch.Tensor))


COUNT = [0]


def check_padded(ctx, out, ts):
    """out is the stack of the tensors, zero-padded to the largest size in every dimension"""
    ctx.check(is_tensor(out), "tensor", lambda: f"{out!r}")
    nd = ts[0].ndim
    ctx.check(out.ndim == nd + 1 and out.shape[0] == len(ts), "batch dimension", lambda: f"{out.shape}")
    for d in range(nd):
        got = out.shape[d + 1]
        ctx.check(vand(vor(*[got == t.shape[d] for t in ts]), *[got >= t.shape[d] for t in ts]), "size",
                  lambda: f"dimension {d}: {out.shape} of {[t.shape for t in ts]}")
    COUNT[0] += 1
    for i, t in enumerate(ts):
        pos = [ctx.int(f"pos{COUNT[0]}.{i}.{d}", 0) for d in range(nd)]
        valid = vand(*[p < s for p, s in zip(pos, out.shape[1:])])
        if not isinstance(out, Tensor):
            # a replay looks at every element
            for p in torch.cartesian_prod(*[torch.arange(s) for s in out.shape[1:]]).reshape(-1, nd).tolist() if nd else [[]]:
                ins = all(a < b for a, b in zip(p, t.shape))
                ctx.check(same_element(out, [i, *p], t, p, ins), "element", lambda: f"{p} of sample {i}: {out}")
            continue
        inside = vand(*[p < s for p, s in zip(pos, t.shape)])
        ok = same_element(out, [i, *pos], t, pos, inside)
        ctx.check(vor(ok, ~valid if not isinstance(valid, bool) else not valid), "element",
                  lambda: f"element {pos} of sample {i}, sizes {[t.shape for t in ts]}")


def check_concat(ctx, out, ts):
    """out holds the batches one after the other, zero-padded to the largest size in every dimension but the first"""
    ctx.check(is_tensor(out), "tensor", lambda: f"{out!r}")
    nd = ts[0].ndim
    ctx.check(out.ndim == nd and bool(out.shape[0] == sum(t.shape[0] for t in ts)), "batch dimension", lambda: f"{out.shape}")
    for d in range(1, nd):
        got = out.shape[d]
        ctx.check(vand(vor(*[got == t.shape[d] for t in ts]), *[got >= t.shape[d] for t in ts]), "size",
                  lambda: f"dimension {d}: {out.shape} of {[t.shape for t in ts]}")
    COUNT[0] += 1
    first = 0
    for i, t in enumerate(ts):
        pos = [ctx.int(f"pos{COUNT[0]}.{i}.{d}", 0) for d in range(nd)]
        bounds = [t.shape[0], *out.shape[1:]]
        if not isinstance(out, Tensor):
            for p in torch.cartesian_prod(*[torch.arange(int(s)) for s in bounds]).reshape(-1, nd).tolist():
                ins = all(a < b for a, b in zip(p, t.shape))
                ctx.check(same_element(out, [first + p[0], *p[1:]], t, p, ins), "element", lambda: f"{p} of batch {i}: {out}")
        else:
            valid = vand(*[p < s for p, s in zip(pos, bounds)])
            inside = vand(*[p < s for p, s in zip(pos, t.shape)])
            ok = same_element(out, [first + pos[0], *pos[1:]], t, pos, inside)
            ctx.check(vor(ok, ~valid if not isinstance(valid, bool) else not valid), "element",
                      lambda: f"element {pos} of batch {i}, sizes {[t.shape for t in ts]}")
        first = first + t.shape[0]


def h_concat(ctx, n, nd, fn):
    begin()
    s = Source(ctx)
    ts = [s.tensor(nd) for _ in range(n)]
    inp = list(ts)
    out = fn(inp)
    check_concat(ctx, out, ts)
    ctx.check(len(inp) == n and all(a is b for a, b in zip(inp, ts)), "input", "the list was changed")
    ctx.reach("done")


def h_mix(ctx, n, depth, fn):
    """concatenating batches of any structure"""
    begin()
    s = Source(ctx)
    shape = {}
    vs = [batch_value(ctx, s, "", shape, i, depth) for i in range(n)]
    check_generic(ctx, fn(list(vs)), vs, concat=True)
    ctx.reach("done")


def batch_value(ctx, s, path, shape, i, depth):
    if path not in shape:
        shape[path] = ctx.choose(f"shape {path}", ("tensor1", "tensor2", "list", "text", "none") + ((*NODES, "sample") if depth else ()))
    k = shape[path]
    if k.startswith("tensor"):
        return s.tensor(int(k[6:]))
    if k in NODES or k == "sample":
        return wrap(k, i, batch_value(ctx, s, path + "x", shape, i, depth - 1), batch_value(ctx, s, path + "y", shape, i, depth - 1))
    return {"text": f"t{i}", "list": [i, "l"], "none": None}[k]


def begin():
    COUNT[0] = 0


def h_pad(ctx, n, nd, fn):
    begin()
    s = Source(ctx)
    ts = [s.tensor(nd) for _ in range(n)]
    inp = list(ts)
    out = fn(inp)
    check_padded(ctx, out, ts)
    ctx.check(len(inp) == n and all(a is b for a, b in zip(inp, ts)), "input", "the list was changed")
    ctx.reach("done")


def h_stack(ctx, n, nd):
    """equal sizes only"""
    begin()
    s = Source(ctx)
    ts = [s.tensor(nd) for _ in range(n)]
    eq = vand(*[a == b for t in ts[1:] for a, b in zip(t.shape, ts[0].shape)])
    try:
        out = batch_stack(ts)
    except RuntimeError:
        ctx.check(not eq if isinstance(eq, bool) else ~eq, "rejected", "equal sizes")
        ctx.reach("rejected")
        return
    check_padded(ctx, out, ts)
    ctx.check(eq, "accepted", "sizes differ")
    ctx.reach("done")


# -- structures


@dataclass
class DC(Sample):
    x: Any
    y: Any


@dataclass
class Plain(PinMemoryMixin):
    x: Any
    y: Any


class NT(NamedTuple):
    x: Any
    y: Any


@dataclass
class DCOut(Batch):
    x: Any
    y: Any


@dataclass
class Whole(Batch):
    """with the base fields of a sample"""
    __key__: Any
    __restore_key__: Any
    __subflavor__: Any
    __subflavors__: Any
    x: Any
    y: Any


class NTOut(NamedTuple):
    x: Any
    y: Any


class MyDict(dict):
    pass


def base_fields(i):
    return dict(__key__=f"k{i}", __restore_key__=("r", i), __subflavor__=None if i else "f", __subflavors__={"s": i})


def wrap(kind, i, x, y):
    if kind == "dict":
        return {"x": x, "y": y}
    if kind == "mydict":
        return MyDict(x=x, y=y)
    if kind == "sample":
        return DC(**base_fields(i), x=x, y=y)
    if kind == "plain":
        return Plain(x, y)
    if kind == "named":
        return NT(x, y)
    raise KeyError(kind)


LEAVES = ("tensor0", "tensor1", "int", "text", "list", "tuple", "none")
NODES = ("dict", "plain", "named")


def value(ctx, s, path, shape, i, depth):
    """value of sample i; the shape of the structure is the same for all samples"""
    if path not in shape:
        shape[path] = ctx.choose(f"shape {path}", LEAVES + (NODES if depth else ()))
    k = shape[path]
    if k.startswith("tensor"):
        return s.tensor(int(k[6:]))
    if k in NODES:
        return wrap(k, i, value(ctx, s, path + "x", shape, i, depth - 1), value(ctx, s, path + "y", shape, i, depth - 1))
    return {"int": ctx.int(f"int {path}.{i}"), "text": f"t{i}", "list": [i, "l"], "tuple": (i,), "none": None}[k]


def get(v, f):
    return v[f] if isinstance(v, dict) else getattr(v, f)


def check_generic(ctx, out, vs, where="", concat=False):
    """out is the batch of the values vs"""
    v = vs[0]
    if is_tensor(v):
        return check_concat(ctx, out, vs) if concat else check_padded(ctx, out, vs)
    if isinstance(v, (dict, NT)) or dataclasses.is_dataclass(v):
        ctx.check(type(out) is type(v) or isinstance(v, dict) and type(out) is dict, "type", lambda: f"{where}: {type(out)} for {type(v)}")
        names = list(v) if isinstance(v, dict) else v._fields if isinstance(v, NT) else [f.name for f in dataclasses.fields(v)]
        if isinstance(v, dict):
            ctx.check(list(out) == names, "keys", lambda: f"{where}: {list(out)}")
        for f in names:
            check_generic(ctx, get(out, f), [get(x, f) for x in vs], f"{where}.{f}", concat)
        return
    check_list(ctx, out, vs, where)


def check_list(ctx, out, vs, where):
    ctx.check(isinstance(out, list) and len(out) == len(vs) and all(a is b or same(a, b) for a, b in zip(out, vs)), "list",
              lambda: f"{where}: {out!r} for {vs!r}")


def h_generic(ctx, n, depth):
    begin()
    s = Source(ctx)
    shape = {}
    vs = [value(ctx, s, "", shape, i, depth) for i in range(n)]
    check_generic(ctx, generic_batch(list(vs)), vs)
    ctx.reach("done")


RESULTS = {None: None, "dict": dict, "whole": Whole, "dataclass": DCOut, "named": NTOut}


def h_default(ctx, n):
    """the default task encoder: encode_sample, batch and encode_batch with any types"""
    begin()
    s = Source(ctx)
    kind = ctx.choose("sample", ["dict", "sample", "plain", "named"])
    enc = ctx.choose("encoded type", [None, "dict", "dataclass", "named", "own"])
    raw = ctx.choose("raw batch type", [None, "dict", "dataclass", "named"])
    bt = ctx.choose("batch type", [None, "dict", "dataclass", "named"])
    own = {"dict": dict, "sample": DC, "plain": Plain, "named": NT}[kind]
    types = {None: None, "dict": dict, "dataclass": Whole if kind == "sample" else DCOut, "named": NTOut, "own": own}
    if kind == "sample" and "named" in (enc, raw, bt):
        return ctx.reach("done")  # (no named tuple has the names of the base fields)
    te = DefaultTaskEncoder(encoded_sample_type=types[enc], raw_batch_type=types[raw], batch_type=types[bt])
    samples = [wrap(kind, i, s.tensor(1), f"text{i}") for i in range(n)]
    names = (["__key__", "__restore_key__", "__subflavor__", "__subflavors__"] if kind == "sample" else []) + ["x", "y"]
    before = [{f: get(v, f) for f in names} for v in samples]
    encoded = [te.encode_sample(v) for v in samples]
    for v, e, b in zip(samples, encoded, before):
        ctx.check(type(e) is (types[enc] or own), "encoded type", lambda: f"{e!r}")
        ctx.check(all(get(e, f) is b[f] for f in names), "encoded fields", lambda: f"{e!r}")
        if enc in (None, "own"):
            ctx.check(e is v, "encoded", "an encoded sample was made anew")
    out = te.batch(list(encoded))
    ctx.check(type(out) is (types[raw] or type(encoded[0])), "raw batch type", lambda: f"{out!r}")
    final = te.encode_batch(out)
    ctx.check(type(final) is (types[bt] or type(out)), "batch type", lambda: f"{final!r}")
    for o in (out, final):
        for f in names:
            vs = [b[f] for b in before]
            if f == "__subflavors__" and not isinstance(encoded[0], Sample):
                continue
            if is_tensor(vs[0]):
                check_padded(ctx, get(o, f), vs)
            else:
                check_list(ctx, get(o, f), vs, f)
        if isinstance(o, dict):
            ctx.check(list(o) == names, "keys", lambda: f"{list(o)}")
    ctx.reach("done")


def h_actions(ctx, n):
    """fields with their own batchers"""
    begin()
    s = Source(ctx)
    kind = ctx.choose("sample", ["dict", "sample", "plain", "named", "mydict"])
    res = ctx.choose("result", ["dict", "dataclass", "named"])
    if kind == "sample" and res == "named":
        return ctx.reach("done")
    acts = [bool(ctx.bool("x has a batcher")), bool(ctx.bool("y has a batcher"))]
    default = ctx.choose("default", [None, batch_list])
    samples = [wrap(kind, i, s.tensor(1), s.tensor(0) if res == "dict" else f"y{i}") for i in range(n)]
    calls = []

    def own(v):
        calls.append(list(v))
        return ("own", len(calls))

    actions = {f: own for f, a in zip("xy", acts) if a}
    if not actions and bool(ctx.bool("no batchers")):
        actions = None
    if actions is not None and bool(ctx.bool("one for an unknown field")):
        actions["z"] = own
    typ = {"dict": dict, "dataclass": Whole if kind == "sample" else DCOut, "named": NTOut}[res]
    k = {} if default is None else {"default_action": default}

    class Enc(TaskEncoder):
        def batch(self, v):
            return self._batch(v, typ, actions, **k)

    out = Enc().batch(samples)
    ctx.check(type(out) is typ, "type", lambda: f"{out!r}")
    j = 0
    for f in "xy":
        vs = [get(v, f) for v in samples]
        if actions and f in actions:
            j += 1
            ctx.check(get(out, f) == ("own", j) and len(calls) >= j and len(calls[j - 1]) == n
                      and all(a is b for a, b in zip(calls[j - 1], vs)), "batcher", lambda: f"{f}: {calls}")
        elif default is batch_list:
            check_list(ctx, get(out, f), vs, f)
        elif is_tensor(vs[0]):
            check_padded(ctx, get(out, f), vs)
        else:
            check_list(ctx, get(out, f), vs, f)
    ctx.check(len(calls) == j, "batchers", lambda: f"{calls}")
    ctx.reach("done")


def check_pinned(ctx, out, v, where):
    if is_tensor(v):
        ctx.check(isinstance(out, Pinned) and out.t is v, "pinned", lambda: f"{where}: {out!r}")
    elif isinstance(v, dict):
        ctx.check(isinstance(out, dict) and list(out) == list(v), "keys", lambda: f"{where}: {out!r}")
        for k in v:
            check_pinned(ctx, out[k], v[k], f"{where}.{k}")
    elif isinstance(v, (list, tuple)):
        ctx.check(type(out) is type(v) and len(out) == len(v), "type", lambda: f"{where}: {out!r}")
        for i, x in enumerate(v):
            check_pinned(ctx, out[i], x, f"{where}.{i}")
    elif dataclasses.is_dataclass(v):
        ctx.check(type(out) is type(v), "type", lambda: f"{where}: {out!r}")
        for f in dataclasses.fields(v):
            check_pinned(ctx, getattr(out, f.name), getattr(v, f.name), f"{where}.{f.name}")
    else:
        ctx.check(out is v or same(out, v), "value", lambda: f"{where}: {out!r} for {v!r}")


def h_pin(ctx, depth):
    """pinned memory: the same structure, every tensor in it pinned"""
    begin()
    s = Source(ctx)
    torch.Tensor.pin_memory = lambda t, device=None: Pinned(t)  # (pinning real memory needs a GPU)
    shape = {}
    top = ctx.choose("batch", ["sample", "plain"])

    def inner(path, d):
        k = ctx.choose(f"shape {path}", ["tensor0", "none"] + (["dict", "named", "plain", "pair", "list"] if d else []))
        if k == "pair":
            return inner(path + "x", d - 1), inner(path + "y", d - 1)
        if k == "list":
            return [inner(path + "x", d - 1)]
        if k in NODES:
            return wrap(k, 0, inner(path + "x", d - 1), inner(path + "y", d - 1))
        shape[path] = k
        return value(ctx, s, path, shape, 0, 0)

    b = wrap(top, 0, inner("x", depth), inner("y", 0))
    check_pinned(ctx, b.pin_memory(), b, "")
    ctx.reach("done")


# -- samples made of samples


@dataclass
class Ext(DC):
    z: Any
    w: Optional[Any] = "w"


def h_derive(ctx):
    """derived and extended samples keep the fields of their source"""
    src = DC(**base_fields(1), x=ctx.int("x"), y=ctx.int("y"))
    how = ctx.choose("how", ["derive", "extend"])
    names = ["__key__", "__restore_key__", "__subflavor__", "__subflavors__"]
    if how == "derive":
        out = Plain2.derive_from(src, v=ctx.int("v"))
        ctx.check(type(out) is Plain2 and same(out.v, ctx.int("v")), "fields", lambda: f"{out}")
    else:
        given = {f: ctx.int("new " + f) for f in ("x", "y", "w") if bool(ctx.bool("new " + f + " given"))}
        out = Ext.extend(src, z=ctx.int("z"), **given)
        ctx.check(type(out) is Ext and same(out.z, ctx.int("z")), "fields", lambda: f"{out}")
        for f in ("x", "y", "w"):
            want = given[f] if f in given else "w" if f == "w" else getattr(src, f)
            ctx.check(same(getattr(out, f), want), "fields", lambda: f"{f}: {out}")
    for f in names:
        ctx.check(getattr(out, f) is getattr(src, f), "base fields", lambda: f"{f}: {out}")
    ctx.check(same([src.x, src.y], [ctx.int("x"), ctx.int("y")]) and src.__key__ == "k1", "source", lambda: f"{src}")
    ctx.reach(how)


@dataclass
class Plain2(Sample):
    v: Any


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("done",), weight=1, seconds=600):
        out.append(dict(name=name, fn=fn, reach=reach, bounds=bounds, weight=weight, seconds=seconds))

    for fn in (batch_pad_stack, generic_batch):
        for n, nd in ((1, 0), (3, 0), (1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3)) + (() if q else ((5, 1), (4, 2), (3, 3))):
            add(f"{fn.__name__} {n} of {nd}", lambda c, n=n, d=nd, fn=fn: h_pad(c, n, d, fn),
                f"{n} tensors of {nd} dimensions, any sizes", weight=n * nd)
    for n, nd in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3)) + (() if q else ((4, 1), (5, 1), (4, 2), (3, 3))):
        add(f"concat_pad {n} of {nd}", lambda c, n=n, d=nd: h_concat(c, n, d, concat_pad),
            f"{n} batches of {nd} dimensions, any sizes", weight=n * nd)
    for n in (1, 2) if q else (1, 2, 3):
        for fn in (generic_concat, homogeneous_concat_mix):
            add(f"{fn.__name__} {n}", lambda c, n=n, fn=fn: h_mix(c, n, 1, fn), f"{n} batches of any structure of depth 1", weight=3)
    for n, nd in ((1, 1), (2, 0), (2, 1), (3, 1), (2, 2), (3, 2)):
        add(f"batch_stack {n} of {nd}", lambda c, n=n, d=nd: h_stack(c, n, d), f"{n} tensors of {nd} dimensions, any sizes",
            reach=("done",) + (("rejected",) if n > 1 and nd else ()))
    add("structures", lambda c: h_generic(c, 2, 1), "2 samples of any structure of depth 1", weight=3)
    add("structures of one", lambda c: h_generic(c, 1, 1), "1 sample of any structure of depth 1", weight=3)
    if not q:
        add("structures of three", lambda c: h_generic(c, 3, 1), "3 samples of any structure of depth 1", weight=5)
    for n in (1, 2, 3):
        add(f"types {n}", lambda c, n=n: h_default(c, n), f"{n} samples, any sample, encoded, raw batch and batch type", weight=5)
        add(f"batchers {n}", lambda c, n=n: h_actions(c, n), f"{n} samples, any batchers of their fields", weight=3)
    for d in (1, 2) if q else (1, 2):
        add(f"pinned {d}", lambda c, d=d: h_pin(c, d), f"any structure of depth {d}", weight=3)
    add("derived", h_derive, "any given fields", reach=("derive", "extend"))
    return out
