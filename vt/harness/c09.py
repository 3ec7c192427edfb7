"""Packing: every buffered sample reaches exactly the packs the selection put it in; resume."""

from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers.packing_dataset import PackingDataset
from megatron.energon.wrappers.skip import SkipSample

from vt.env import END, ListSource, VB, draining, resume_law

ASSUMPTIONS = [
    "the inner dataset keeps the dataset contract (model ListSource); selection and packing functions "
    "are deterministic in their samples, with arbitrary (symbolic) outcomes",
    "the selection never returns ten empty selections in a row (documented error)",
]


class UserError(Exception):
    pass


def wc_for(nw):
    return WorkerConfig(rank=0, world_size=1, num_workers=nw)


def uids(b):
    return "+".join(s.uid for s in b)


def pack_of(pack, tag, idx):
    return VB(__key__=",".join(s.__key__ for s in pack) + tag, __restore_key__=(), __subflavor__=None,
              __subflavors__=None, value=[s.value for s in pack], uid=uids(pack) + tag, seen_index=idx)


class Fns:
    """the user's functions, as functions of the symbolic choices"""

    def __init__(self, ctx, G, sel, outcomes, gen, empties=False):
        self.ctx, self.G, self.sel, self.outcomes, self.gen = ctx, G, sel, outcomes, gen
        self.empties = empties
        self.seen = {}

    def select(self, samples):
        """groups of indexes into samples, or skip/raise"""
        c = self.ctx
        r = c.choose(f"sel.{uids(samples)}", self.sel)
        if r in ("skip", "raise"):
            return r
        if r == "reversed":
            return [[i] for i in reversed(range(len(samples)))]
        opts = list(range(self.G)) + ["drop"]
        g = [c.choose(f"to.{uids(samples)}.{i}", opts) for i in range(len(samples))]
        groups = [[i for i in range(len(samples)) if g[i] == j] for j in range(self.G)]
        return [x for x in groups if x or self.empties]

    def index(self, kind, samples, wc):
        i = wc.active_worker_sample_index
        k = (kind, uids(samples))
        self.ctx.check(self.seen.setdefault(k, i) == i, f"{kind} index",
                       lambda: f"{kind} of {k} saw index {self.seen[k]} and, in another run, {i}")
        return i

    def make(self, nw, n, buf):
        wc = wc_for(nw)
        src = ListSource(wc, "s", [n] * max(nw, 1))

        def pre(samples):
            samples = list(samples)
            self.index("selection", samples, wc)
            r = self.select(samples)
            if r == "skip":
                raise SkipSample()
            if r == "raise":
                raise UserError()
            return [[samples[i] for i in g] for g in r]

        def fin(pack):
            o = self.ctx.choose("fn." + uids(pack), self.outcomes)
            if o == "skip":
                raise SkipSample()
            if o == "raise":
                raise UserError()
            return pack_of(pack, "", wc.active_worker_sample_index)

        def gfin(pack):
            cnt, end = self.ctx.choose("fn." + uids(pack), self.outcomes)
            for j in range(cnt):
                yield pack_of(pack, f".{j}", wc.active_worker_sample_index)
            if end == "raise":
                raise UserError()

        ds = PackingDataset(src, buffer_size=buf, pre_packer=pre, final_packer=gfin if self.gen else fin,
                            final_packer_stateless=True, worker_config=wc,
                            error_handler=lambda e, b: None)
        ds.vt_source = src
        return ds

    def ref(self, nw, n, buf, epochs, w):
        src = ListSource(wc_for(nw), "s", [n] * max(nw, 1))
        evs = []
        calls = 0
        for e in range(epochs):
            ss = [src.sample(w, e, i) for i in range(n)]
            for a in range(0, n, buf):
                chunk = ss[a:a + buf]
                r = self.select(chunk)
                if r in ("skip", "raise"):
                    continue
                for g in r:
                    p = [chunk[i] for i in g]
                    idx, calls = calls, calls + 1
                    keys = tuple(s.__restore_key__ for s in p)
                    o = self.ctx.choose("fn." + uids(p), self.outcomes)
                    args = dict(__subflavor__=None, __subflavors__=None, value=[s.value for s in p],
                                seen_index=idx * max(nw, 1) + w)
                    if self.gen:
                        for j in range(o[0]):
                            evs.append(VB(__key__=",".join(s.__key__ for s in p) + f".{j}",
                                          __restore_key__=("PackingDataset", idx, j) + keys,
                                          uid=uids(p) + f".{j}", **args))
                    elif o == "ok":
                        evs.append(VB(__key__=",".join(s.__key__ for s in p),
                                      __restore_key__=("PackingDataset", idx) + keys,
                                      uid=uids(p), **args))
            evs.append(END)
        return evs


def inside_pack(f, evs):
    """the last output was not the last one of its pack"""
    if not evs or evs[-1] is END:
        return False
    u, j = evs[-1].uid.rsplit(".", 1)
    return int(j) < f.ctx.choose("fn." + u, f.outcomes)[0] - 1


def h_pack(ctx, nw, n, buf, G, epochs, sel, outcomes, gen=False, empties=False, pick_n=True):
    if pick_n:
        n = ctx.pick("n", 1, n)
    f = Fns(ctx, G, sel, outcomes, gen, empties)
    resume_law(ctx, lambda: f.make(nw, n, buf), nw, epochs=epochs,
               ref=lambda w: f.ref(nw, n, buf, epochs, w),
               save_ok=lambda b, evs: not draining(b, evs) and not (gen and inside_pack(f, evs)))


def h_drain(ctx):
    f = Fns(ctx, 1, ["reversed"], ["ok"], False)
    resume_law(ctx, lambda: f.make(0, 2, 3), 0, epochs=2, modes=("once",), restore_keys=False,
               save_ok=draining)


def h_inside(ctx):
    f = Fns(ctx, 1, ["reversed"], [(2, "ok")], True)
    resume_law(ctx, lambda: f.make(0, 2, 1), 0, epochs=1, modes=("once",), restore_keys=False,
               save_ok=lambda b, evs: inside_pack(f, evs) and not draining(b, evs))


def instances(tier):
    q = tier == "quick"
    R = ("restored",)
    out = []

    def add(name, bounds, **k):
        out.append(dict(name=name, reach=R, seconds=850, weight=k.pop("weight", 5), bounds=bounds,
                        fn=lambda c, k=k: h_pack(c, **k)))

    for nw in (0, 2):
        add(f"packs nw={nw}", f"{nw} workers, {4 if q or nw else 6} samples, buffer 2, every assignment to 2 packs or "
            "dropping, every save point", nw=nw, n=4 if q or nw else 6, buf=2, G=2, epochs=1, sel=["any"],
            outcomes=["ok"], pick_n=False, weight=9)
        add(f"big buffer nw={nw}", f"{nw} workers, {4 if q else 6} samples, buffer 3, one epoch",
            nw=nw, n=4 if q else 6, buf=3, G=2 if not q or not nw else 1, epochs=1, sel=["any", "reversed"], outcomes=["ok"],
            pick_n=False, weight=7)
        add(f"failures nw={nw}", f"{nw} workers, 1..{3 if q else 4} samples, buffer 2, selection and "
            "packing ok/skip/raise, packs in reverse order, every save point", nw=nw, n=3 if q else 4, buf=2, G=1,
            epochs=1, sel=["reversed", "skip", "raise"] if q else ["any", "reversed", "skip", "raise"], outcomes=["ok", "skip", "raise"])
        add(f"epochs nw={nw}", f"{nw} workers, 1..3 samples, buffer 2, 2 epochs, packs in reverse order or "
            "selection skipped", nw=nw, n=3, buf=2, G=1, epochs=2, sel=["reversed", "skip"],
            outcomes=["ok"] if q else ["ok", "skip"])
        add(f"several outputs nw={nw}", f"{nw} workers, 1..3 samples, buffer 1..2, 0..2 outputs per pack",
            nw=nw, n=3, buf=2, G=1, epochs=1, sel=["reversed"],
            outcomes=[(0, "ok"), (1, "ok"), (2, "ok")] + ([(1, "raise")] if not q or not nw else []), gen=True)
    add("empty packs", "1 worker, 1..2 samples, buffer 2, empty packs allowed", nw=0, n=2, buf=2, G=2,
        epochs=1, sel=["any"], outcomes=["ok"], empties=True)
    out.append(dict(name="draining", fn=h_drain, bounds="finite source of 2 samples, buffer 3, saved "
                    "between the two last packs"))
    out.append(dict(name="inside a pack", fn=h_inside, bounds="2 outputs per pack, saved between them"))
    return out
