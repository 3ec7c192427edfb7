"""C01: shards are partitioned over all workers without loss, duplication or imbalance."""

from vt.engine import vand, vimpl, vmax, vmin, vor

ASSUMPTIONS = [
    "shard sample counts are non-negative integers (taken from .info.yaml); total < 2**24, so the "
    "single float divisions in the code agree with exact rationals (lemma F in DESIGN.md)",
    "all ranks call with the same shard list, world size and worker count (documented)",
]


def mk_shards(ctx, S, cols, hi, zero_ok=True):
    from megatron.energon.flavors.webdataset.structs import ShardInfo
    from megatron.energon.epathlib import EPath

    counts = [ctx.int(f"c{i}", 0 if zero_ok else 1, hi) for i in range(S)]
    shards = [
        [
            ShardInfo(name=f"col{c}/s{i}.tar", path=EPath(f"/x/col{c}/s{i}.tar"), offset=0,
                      count=counts[i])
            for c in range(cols)
        ]
        for i in range(S)
    ]
    return counts, shards


def split(ctx, shards, ws, nw, M, rot):
    from megatron.energon.flavors.webdataset.sharder import Sharder
    from megatron.energon.worker import WorkerConfig

    out = []
    for rank in range(ws):
        wc = WorkerConfig(rank=rank, world_size=ws, num_workers=nw)
        r = Sharder.shard_workers(shards, wc, max_samples_per_sequence=M, rotation_offset=rot)
        ctx.check(len(r) == max(1, nw), "one shard list per worker of the rank")
        out.extend(list(x) for x in r)
    return out


def check_partition(ctx, counts, shards, workers, cols, M):
    names = [s[0].name for s in shards]
    si, pos = 0, 0
    totals = []
    for w in workers:
        tot = 0
        for piece in w:
            ctx.check(len(piece) == cols, "all columns of a shard stay together")
            p = piece[0]
            ctx.check(p.name in names, "piece is of an input shard")
            k = names.index(p.name)
            ctx.check(k >= si, "pieces are assigned in shard order")
            while si < k:
                ctx.check(pos == counts[si], "shard fully assigned before the next one starts",
                          lambda: f"shard {si} assigned up to {pos} of {counts[si]}")
                si += 1
                pos = 0
            ctx.check(p.offset == pos, "pieces are contiguous (no gap, no overlap)")
            ctx.check(p.count >= 1, "no empty piece")
            pos = pos + p.count
            ctx.check(pos <= counts[si], "piece ends inside of its shard")
            for c, q in enumerate(piece):
                ctx.check(q.name == shards[k][c].name, "column keeps its shard")
                ctx.check(q.path == shards[k][c].path, "column keeps its path")
                ctx.check(vand(q.offset == p.offset, q.count == p.count),
                          "columns are cut at the same samples")
            if M is not None:
                ctx.check(2 * p.count <= 3 * M, "slice is at most 1.5 * max_samples_per_sequence")
            tot = tot + p.count
        totals.append(tot)
    while si < len(counts):
        ctx.check(pos == counts[si], "every sample of the last shards is assigned",
                  lambda: f"shard {si} assigned up to {pos} of {counts[si]}")
        si += 1
        pos = 0
    total = sum(counts)
    ctx.check(sum(totals) == total, "total number of samples")
    G = len(workers)
    for t in totals:
        # balanced: floor or ceil of the mean
        ctx.check(vand(t * G > total - G, t * G < total + G), "worker loads differ by at most one")
    return totals


def h_partition(ctx, S, cols, ws, nw, hi, M_hi, kmax=None, rot=None):
    counts, shards = mk_shards(ctx, S, cols, hi)
    G = ws * max(1, nw)
    ctx.assume(sum(counts) > 0)
    M = None
    if M_hi is not None:
        M = ctx.int("M", 1, M_hi)
        for c in counts:
            ctx.assume(c <= M * kmax)
    r = ctx.int("rot", 0, G - 1) if rot is None else rot
    workers = split(ctx, shards, ws, nw, M, r)
    check_partition(ctx, counts, shards, workers, cols, M)
    ctx.reach("done")
    if any(len(w) == 0 for w in workers):
        ctx.reach("worker without samples")
    if any(len(w) > 1 for w in workers):
        ctx.reach("worker spans shards")


def h_blend(ctx, ws, nw, D, hi):
    """Several datasets split with the rotation the loader hands from one to the next: the
    remainder samples are spread, so the overall loads also differ by at most one."""
    from megatron.energon.flavors.webdataset.sharder import Sharder  # noqa: F401

    G = ws * max(1, nw)
    rot = 0
    tot = [0] * G
    total = 0
    for d in range(D):
        n = ctx.int(f"n{d}", 1, hi)
        from megatron.energon.flavors.webdataset.structs import ShardInfo
        from megatron.energon.epathlib import EPath

        shards = [[ShardInfo(name=f"d{d}", path=EPath("/x/d"), offset=0, count=n)]]
        workers = split(ctx, shards, ws, nw, None, rot)
        for i, w in enumerate(workers):
            for p in w:
                tot[i] = tot[i] + p[0].count
        total = total + n
        rot = (rot + n) % G
    lo = hi_ = tot[0]
    for t in tot[1:]:
        lo = vmin(lo, t)
        hi_ = vmax(hi_, t)
    ctx.check(hi_ - lo <= 1, "blended datasets: worker loads differ by at most one")
    ctx.check(sum(tot) == total, "blended datasets: total")
    ctx.reach("done")


def h_builder(ctx, kinds, ws, nw, hi):
    """the same for the data sets a task encoder blends, of one or two joined data sets each"""
    import contextlib
    import io

    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.crude import CrudeWebdataset
    from megatron.energon.flavors.webdataset import JoinedWebdatasetFactory
    from megatron.energon.task_encoder.base import TaskEncoder
    from megatron.energon.task_encoder.cooking import Cooker
    from megatron.energon.worker import WorkerConfig
    from vt import vfs
    from vt.env import in_worker, reset
    from vt.harness.c03 import add_dataset, simple

    fs = vfs.new()
    vfs.patch()
    n = [ctx.pick(f"n{d}", 1, hi) for d in range(len(kinds))]
    for d, k in enumerate(kinds):
        for j in range(k):
            add_dataset(fs, f"/vtfs/ds{d}{j}", {"s.tar": simple(n[d], prefix=f"{d}")}, symbolic=False)

    class Enc(TaskEncoder):
        cookers = [Cooker(lambda s: s)]

    class Rec:
        def __init__(self, inner, out):
            self.inner, self.out = inner, out

        def __len__(self):
            return len(self.inner)

        def build(self, *a, **k):
            ds = self.inner.build(*a, **k)
            self.out.append(ds)
            return ds

        def __getattr__(self, a):
            return getattr(self.inner, a)

    def pieces(ds):
        while not hasattr(ds, "shards"):
            ds = ds.dataset
        return ds.shards

    loads, covered = [], [[] for _ in kinds]
    for r in range(ws):
        reset()
        wc = WorkerConfig(rank=r, world_size=ws, num_workers=nw)
        built = []
        with contextlib.redirect_stdout(io.StringIO()):
            fac = []
            for d, k in enumerate(kinds):
                inner = [CrudeWebdataset(EPath(f"/vtfs/ds{d}{j}"), split_part="train", training=True, worker_config=wc, auto_decode=False)
                         for j in range(k)]
                fac.append((Rec(inner[0] if k == 1 else JoinedWebdatasetFactory(
                    inner, training=True, worker_config=wc, joiner=lambda *a: a), built), 1.0))
            Enc().build_train_datasets(datasets=fac, worker_config=wc, batch_size=None)
        ctx.check(len(built) == len(kinds), "blend: every data set is built once")
        for w in range(max(nw, 1)):
            loads.append(0)
            for d, ds in enumerate(built):
                for p in pieces(ds)[w]:
                    loads[-1] += p[0].count
                    covered[d] += range(p[0].offset, p[0].offset + p[0].count)
    for d, c in enumerate(covered):
        ctx.check(c == list(range(n[d])), "blend: partition", lambda: f"{n}: data set {d}: {c}")
    ctx.check(max(loads) - min(loads) <= 1, "blended datasets: worker loads differ by at most one", lambda: f"{n}: {loads}")
    ctx.reach("done")


def instances(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, reach=("done",), weight=1, **kw):
        out.append(dict(name=name, fn=lambda ctx: fn(ctx, **kw), reach=reach, weight=weight,
                        seconds=600, bounds=str(kw)))

    for ws, nw in [(1, 0), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)] + (
            [(4, 1), (5, 1), (2, 3), (3, 2), (1, 7), (2, 4)] if th else [(5, 1)]):
        for S in ([1, 2, 3] if not th else [1, 2, 3, 4]):
            if ws * nw >= 5 and S >= 3 and not th:
                continue
            add(f"partition ws={ws} nw={nw} S={S}", h_partition, S=S, cols=1, ws=ws, nw=nw,
                hi=1 << 20, M_hi=None, weight=S * ws * max(1, nw))
    add("partition columns", h_partition, S=2, cols=2, ws=2, nw=2, hi=1 << 20, M_hi=None)
    for S, ws, nw, k in [(1, 1, 0, 16), (1, 2, 1, 6), (2, 2, 1, 4)] + (
            [(1, 2, 2, 8), (2, 2, 2, 5), (3, 1, 2, 3)] if th else []):
        add(f"slices S={S} ws={ws} nw={nw} k={k}", h_partition, S=S, cols=1, ws=ws, nw=nw,
            hi=1 << 20, M_hi=1 << 16, kmax=k, rot=0, weight=50)
    for ws, nw, D in [(2, 1, 3), (2, 2, 2), (3, 1, 3)] + ([(4, 2, 2), (5, 1, 3)] if th else []):
        add(f"blend ws={ws} nw={nw} D={D}", h_blend, ws=ws, nw=nw, D=D, hi=1 << 20, weight=20)
    for kinds, ws, nw, hi in [((1, 1), 2, 1, 4), ((1, 2, 1), 1, 3, 3), ((2, 2), 2, 2, 5), ((1, 1, 1), 3, 0, 3)] + (
            [((1, 2, 1, 2), 1, 3, 3), ((1, 2, 1), 2, 2, 6)] if th else []):
        add(f"task encoder {kinds} ws={ws} nw={nw}", h_builder, kinds=kinds, ws=ws, nw=nw, hi=hi, weight=3)
    return out
