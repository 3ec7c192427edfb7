"""The sample loader resumes exactly from every save point, and restores samples by key."""

from megatron.energon.flavors.crude import CrudeSample
from megatron.energon.worker import WorkerConfig

from vt import vfs
from vt.env import END, resume_law
from vt.harness.c03 import ASSUMPTIONS, add_dataset, build, content, simple  # noqa: F401

ROOT = "/vtfs/ds"


def h_resume(ctx, sizes, nw, *, training, shuffle=1, par=1, epochs=None, horizon=None, max_seq=None, rank=(0, 1),
             excl=False, junk=True, symbolic=True, modes=("once", "twice", "others", "fresh", "used", "reset"), max_k=None, **k):
    fs = vfs.new()
    vfs.patch()
    shards = {f"s{i}.tar": simple(n, 1 + i % 2, prefix=f"k{i}_", junk=junk and i == 0) for i, n in enumerate(sizes)}
    exclude = ()
    if excl:
        keys = [v["__key__"] for v in _exp(fs, shards).values()]
        exclude = tuple(k for k in keys if ctx.bool(f"exclude {k}"))
        ctx.assume(len(exclude) < len(keys))
        fs = vfs.new()
    add_dataset(fs, ROOT, shards, symbolic=symbolic, exclude=exclude)
    exp = content(fs, ROOT, shards, exclude)

    def make():
        wc = WorkerConfig(rank=rank[0], world_size=rank[1], num_workers=nw)
        return build(ROOT, wc, training=training, shuffle_over_epochs=shuffle, parallel_shard_iters=par,
                     max_samples_per_sequence=max_seq, **k)

    def ref(w):
        ds = make()
        evs = []
        calls = 0
        for _ in range(epochs):
            for p in ds.dataset.shards[w]:
                for i in range(p[0].offset, p[0].offset + p[0].count):
                    if (p[0].name, i) in exp:
                        s = CrudeSample(exp[(p[0].name, i)])
                        s["__shard__"] = p[0].name
                        s["__restore_key__"] = ("MapDataset", calls, "Webdataset", p[0].name, i)
                        calls += 1
                        s["__subflavor__"] = None
                        s["__subflavors__"] = {}
                        evs.append(s)
            evs.append(END)
        return evs

    resume_law(ctx, make, nw, epochs=epochs, horizon=horizon, modes=modes, ref=None if training else ref, max_k=max_k)


def _exp(fs, shards):
    for name, members in shards.items():
        fs.add(vfs.Tar(f"{ROOT}/{name}", members, tag=None))
    return content(fs, ROOT, shards)


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, sizes, nw, weight=3, seconds=700, **kw):
        out.append(dict(name=name, fn=lambda c: h_resume(c, sizes, nw, **kw), reach=("restored",),
                        bounds=f"shards of {sizes} samples, {nw} workers, {kw}, every save point", weight=weight,
                        seconds=seconds))

    add("val", (2, 2), 0, training=False, epochs=2)
    add("val workers", (3, 2), 2, training=False, epochs=2, max_seq=2)
    add("val ranks", (4, 3), 2, training=False, epochs=2, rank=(1, 2), symbolic=False)
    add("val excluded", (2, 1), 0, training=False, epochs=2, excl=True, modes=("once", "twice"), weight=9)
    add("train", (2, 2), 0, training=True, horizon=6)
    add("train parallel", (2, 1), 0, training=True, par=2, horizon=4 if q else 5)
    add("train parallel 3", (1, 1, 1), 0, training=True, par=2, horizon=3 if q else 4, symbolic=False)
    add("train workers", (3, 3), 2, training=True, par=2, horizon=5, symbolic=False)
    add("train excluded", (2, 1), 0, training=True, horizon=3, excl=True, modes=("once",), weight=9, symbolic=False)
    add("train shuffled epochs", (1, 1), 0, training=True, shuffle=2, par=1, horizon=4, symbolic=False)
    add("train with replacement", (2, 1), 0, training=True, shuffle=-1, par=2, horizon=3, symbolic=False, junk=False)
    if not q:
        add("train shuffled epochs parallel", (1, 1), 0, training=True, shuffle=2, par=2, horizon=4, symbolic=False,
            modes=("once",), seconds=850)
        add("val excluded 3", (3, 1), 0, training=False, epochs=2, excl=True, modes=("once",), seconds=850)
        add("val 3", (3, 1, 2), 0, training=False, epochs=2, max_seq=2)
        add("val workers 3", (5, 4), 3, training=False, epochs=2, symbolic=False)
        add("train sequences", (4, 2), 0, training=True, par=2, horizon=4, max_seq=2, symbolic=False, seconds=850)
    return out
