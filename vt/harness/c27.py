"""Crude samples are cooked by the first cooker that matches them; complete samples are left alone."""

import contextlib
import io

from megatron.energon import CrudeWebdataset
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.crude import CrudeSample
from megatron.energon.task_encoder.base import TaskEncoder
from megatron.energon.task_encoder.cooking import Cooker, basic_sample_keys
from megatron.energon.worker import WorkerConfig

from vt import vfs
from vt.engine import vand, vnot
from vt.env import END, VB, VS, Sim, reset, same, show
from vt.harness.c03 import ASSUMPTIONS as BASE_ASSUMPTIONS
from vt.harness.c03 import add_dataset, simple

ASSUMPTIONS = BASE_ASSUMPTIONS + [
    "subflavor values are unbounded integers (the code only compares them); conditions are deterministic in the sample, with "
    "arbitrary (symbolic) outcomes"]
NAMES = ("k", "l")


class Rules:
    """n cookers with symbolic filters"""

    def __init__(self, ctx, n, kinds, forms):
        self.ctx = ctx
        self.calls = []
        self.rules = []
        self.cookers = []
        self.conds = []
        for i in range(n):
            sub = ctx.int(f"c{i}.sub") if "sub" in kinds and ctx.bool(f"c{i}.has sub") else None
            subs = None
            if "subs" in kinds:
                names = ctx.choose(f"c{i}.subs", forms)
                subs = None if names is None else {k: ctx.int(f"c{i}.{k}") for k in names}
            cond = None
            if "cond" in kinds and ctx.bool(f"c{i}.cond"):
                cond = self.condition(i)
            self.rules.append((sub, subs, cond))
            self.cookers.append(Cooker(self.cook(i), is_subflavor=sub, has_subflavors=subs, condition=cond))

    def outcome(self, i, key):
        return self.ctx.bool(f"cond{i}.{key}")

    def condition(self, i):
        def cond(s):
            self.conds.append((i, s))
            return self.outcome(i, s["__key__"])
        return cond

    def cook(self, i):
        def cook(s):
            self.calls.append((i, s))
            return VS(**basic_sample_keys(s), value=s["p0"], uid=f"c{i}")
        return cook

    def match(self, i, s):
        """the stated rule, as a formula"""
        sub, subs, cond = self.rules[i]
        m = []
        if sub is not None:
            m.append(False if s["__subflavor__"] is None else s["__subflavor__"] == sub)
        for k, v in (subs or {}).items():
            m.append(s["__subflavors__"][k] == v if k in s["__subflavors__"] else False)
        if cond is not None:
            m.append(self.outcome(i, s["__key__"]))
        return vand(*m)

    def first(self, i, s):
        """cooker i (None: none) is the one for sample s"""
        before = self.rules if i is None else self.rules[:i]
        no = [vnot(self.match(j, s)) for j in range(len(before))]
        return vand(*no) if i is None else vand(self.match(i, s), *no)


def encoder(rules):
    class Enc(TaskEncoder):
        cookers = rules.cookers

    return Enc()


def h_rules(ctx, n, kinds, forms, has):
    """one crude sample, the cook step itself"""
    r = Rules(ctx, n, kinds, forms)
    s = CrudeSample(__key__="s/x", __restore_key__=("Webdataset", 0, 0), p0=ctx.int("p0"),
                    __subflavor__=ctx.int("s.sub") if "sub" in kinds and ctx.bool("s has sub") else None,
                    __subflavors__={k: ctx.int(f"s.{k}") for k in ctx.choose("s.subs", has)})
    te = encoder(r)
    for _ in range(2):  # the second time: nothing was changed by the first one
        del r.calls[:], r.conds[:]
        before = dict(s)
        try:
            out = te.cook_crude_sample(s)
        except NotImplementedError:
            ctx.check(r.calls == [], "none", lambda: f"cooked with {r.calls} and raised")
            ctx.check(r.first(None, s), "none", "no cooker was used, but one matches")
            ctx.reach("none")
            continue
        ctx.check(len(r.calls) == 1 and r.calls[0][1] is s, "once", lambda: f"{r.calls}")
        i = r.calls[0][0]
        ctx.check(r.first(i, s), "first match", lambda: f"cooker {i} was used")
        ctx.check(isinstance(out, VS) and out.uid == f"c{i}" and same(out.value, s["p0"]), "output", lambda: f"{out}")
        keys = ("__key__", "__restore_key__", "__subflavor__", "__subflavors__")
        ctx.check(all(same(getattr(out, k), s[k]) for k in keys), "basic keys", lambda: f"{out}")
        ctx.check(dict(s).keys() == before.keys() and all(s[k] is before[k] for k in before), "changed", lambda: f"{s}")
        ctx.reach(f"cooked{i}")


def h_complete(ctx, n, kinds, forms):
    """a complete sample is not cooked"""
    r = Rules(ctx, n, kinds, forms)
    s = VS("s/x", ("Webdataset", 0, 0), ctx.int("sub"), {k: ctx.int(f"s.{k}") for k in NAMES}, ctx.int("v"), "u")
    te = encoder(r)
    ctx.check(te.cook_crude_sample(s) is s and r.calls == [] and r.conds == [], "complete", lambda: f"{r.calls} {r.conds}")
    for bad in ({"__key__": "x"}, None, 5, ("x",)):
        try:
            out = te.cook_crude_sample(bad)
        except Exception:
            continue
        ctx.fail("rejected", f"{bad!r} gave {out!r}")
    ctx.reach("complete")


class CompleteWeb(CrudeWebdataset):
    """a data set of complete samples"""

    def load_sample(self, s):
        c = super().load_sample(s)
        return VB(**basic_sample_keys(c), value=c["p0"], uid="complete", seen_index=0)


def h_pipeline(ctx, sets, n, kinds, forms, *, training, nw=0, horizon=6):
    """sets: per data set (complete, samples)"""
    reset()
    fs = vfs.new()
    vfs.patch()
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    r = Rules(ctx, n, kinds, forms)
    info = {}
    handled = []
    with contextlib.redirect_stdout(io.StringIO()):
        fac = []
        for d, (complete, size) in enumerate(sets):
            add_dataset(fs, f"/vtfs/ds{d}", {"s.tar": simple(size, prefix="abc"[d])}, symbolic=False)
            sub = ctx.int(f"ds{d}.sub") if "sub" in kinds and ctx.bool(f"ds{d} has sub") else None
            names = ctx.choose(f"ds{d}.subs", forms) if "subs" in kinds else None
            subs = None if names is None else {k: ctx.int(f"ds{d}.{k}") for k in names}
            for i in range(size):
                key = f"s.tar/{'abc'[d]}{i:03d}"
                info[key] = (complete, fs.nodes[f"/vtfs/ds{d}/s.tar"].data(i), {
                    "__key__": key, "__subflavor__": sub, "__subflavors__": dict(subs or {})})
            cls = CompleteWeb if complete else CrudeWebdataset
            fac.append((cls(EPath(f"/vtfs/ds{d}"), split_part="train", training=training, worker_config=wc, auto_decode=False,
                            subflavor=sub, subflavors=subs, parallel_shard_iters=1), 1.0))
        te = encoder(r)
        b = te.build_train_datasets if training else te.build_val_datasets
        k = dict(shuffle_buffer_size=None) if training else {}
        if training:
            # (an epoch of nothing but skipped samples has no end)
            for key, (c, _, i) in info.items():
                if key.endswith("000") and not c:
                    ctx.assume(vnot(r.first(None, i)))
        ds = b(datasets=fac, worker_config=wc, batch_size=None, **k)
    got = []
    for w in range(max(nw, 1)):
        sim = Sim(ds, w, nw)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            for _ in range(horizon):
                ev = sim.step()
                if ev is END:
                    break
                got.append(ev)
            else:
                ctx.check(training, "epoch", lambda: f"more than {horizon} samples: {show(got)}")
    for ev in got:
        complete, value, s = info[ev.__key__]
        ctx.check(same(ev.value, value), "content", lambda: f"{ev}, expected {value}")
        ctx.check(same(ev.__subflavor__, s["__subflavor__"]) if s["__subflavor__"] is not None else ev.__subflavor__ is None,
                  "subflavor", lambda: f"{ev}, expected {s}")
        ctx.check(same(ev.__subflavors__, s["__subflavors__"]), "subflavors", lambda: f"{ev}, expected {s}")
        if complete:
            ctx.check(isinstance(ev, VB) and ev.uid == "complete", "complete", lambda: f"{ev}")
        else:
            ctx.check(isinstance(ev, VS) and ev.uid[0] == "c", "cooked", lambda: f"{ev}")
            ctx.check(r.first(int(ev.uid[1:]), s), "first match", lambda: f"cooker {ev.uid} was used for {s}")
    if not training:
        keys = [e.__key__ for e in got]
        ctx.check(len(set(keys)) == len(keys), "once", lambda: show(got))
        for key, (complete, _, s) in info.items():
            if key not in keys:
                ctx.check(not complete, "lost", lambda: f"{key} was left out")
                ctx.check(r.first(None, s), "lost", lambda: f"{key} was left out, but a cooker matches")
    ctx.reach("done")


def h_none(ctx, sets, training):
    """crude data sets without cookers are rejected, wherever they are"""
    reset()
    fs = vfs.new()
    vfs.patch()
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    fac = []
    kinds = [ctx.bool(f"crude{d}") for d in range(sets)]
    cookers = ctx.bool("cookers")
    with contextlib.redirect_stdout(io.StringIO()):
        for d, crude in enumerate(kinds):
            add_dataset(fs, f"/vtfs/ds{d}", {"s.tar": simple(1, prefix="abc"[d])}, symbolic=False)
            from vt.harness.c21 import Fields
            if crude:
                f = CrudeWebdataset(EPath(f"/vtfs/ds{d}"), split_part="train", training=training, worker_config=wc, auto_decode=False)
            else:
                f = Fields(EPath(f"/vtfs/ds{d}"), split_part="train", training=training, worker_config=wc,
                           field_map={"a": "p0", "b": "p0"})
            fac.append((f, 1.0))

        class Enc(TaskEncoder):
            pass

        te = Enc()
        if cookers:
            te.cookers = [Cooker(lambda s: VS(**basic_sample_keys(s), value=0, uid=""))]
        b = te.build_train_datasets if training else te.build_val_datasets
        k = dict(shuffle_buffer_size=None) if training else {}
        err = None
        try:
            b(datasets=fac, worker_config=wc, batch_size=None, **k)
        except Exception as e:
            err = e
    need = any(kinds) and not cookers
    ctx.check((err is not None) == bool(need), "rejected", lambda: f"crude: {kinds}, cookers: {cookers}: {err!r}")
    ctx.reach("rejected" if err else "accepted")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("done",), weight=1, seconds=300):
        out.append(dict(name=name, fn=fn, reach=reach, bounds=bounds, weight=weight, seconds=seconds))

    ALL = ("sub", "subs", "cond")
    F = [None, (), ("k",), ("k", "l")]
    H = [(), ("k",), ("l", "k")]
    for kinds in (("sub",), ("subs",), ("cond",), ALL):
        n = 3 if len(kinds) == 1 and q else 2 if q else 3
        add(f"rules {'+'.join(kinds)}", lambda c, n=n, kinds=kinds: h_rules(c, n, kinds, F, H),
            f"{n} cookers with any {kinds} filters, one sample with any subflavors", reach=("cooked0", f"cooked{n - 1}", "none"))
    add("no cookers match", lambda c: h_rules(c, 0, ALL, F, H), "no cookers", reach=("none",))
    add("complete", lambda c: h_complete(c, 2, ALL, F), "2 cookers with any filters", reach=("complete",))
    G = [None, ("k",)]
    for training in (True, False):
        t = "train" if training else "val"
        one = [(False, 2)]
        add(f"{t} conditions", lambda c, t=training: h_pipeline(c, one, 2, ("cond",), G, training=t), "2 samples, 2 cookers")
        add(f"{t} filters", lambda c, t=training: h_pipeline(c, [(False, 1), (False, 1)], 2, ("sub", "subs"), G, training=t,
                                                             horizon=3 if t else 6),
            "2 data sets, 2 cookers, any subflavors")
        add(f"{t} mixed", lambda c, t=training: h_pipeline(c, [(True, 1), (False, 2)], 1, ("subs", "cond"), F, training=t,
                                                           horizon=3 if t else 6),
            "a complete and a crude data set, 1 cooker")
        add(f"{t} without cookers", lambda c, t=training: h_none(c, 3, t), "3 data sets, each crude or not",
            reach=("rejected", "accepted"))
    add("val workers", lambda c: h_pipeline(c, [(False, 2), (True, 1)], 1, ("sub", "cond"), G, training=False, nw=2),
        "2 data sets, 2 workers, 1 cooker")
    return out
