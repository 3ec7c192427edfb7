"""The tar index and windows of a tar file."""

from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.itar import (SubFileReader, TarIndexReader, TarIndexWriter,
                                                      get_itar_byte_offset, open_itar)

from vt import vfs
from vt.engine import vand, vmin
from vt.env import same
from vt.harness.c03 import base_of, simple
from vt.harness.c15 import Faults, ref_seek

ASSUMPTIONS = [
    "files and tarfile are modelled (vt/vfs.py): 512 byte headers, padded data of symbolic size; 64 bit values of the index are symbolic",
    "at a crash the file system holds what was written until then; a rename is atomic",
]


class Crash(BaseException):
    pass


def h_window(ctx, ops, short):
    vfs.patch()
    fs = vfs.new()
    total, off, size = ctx.int("total", 0), ctx.int("window", 0), ctx.int("size", 0)
    ctx.assume(off + size <= total)
    node = fs.add(vfs.Blob("/vtfs/t.tar", total))
    vfs.FAULTS = Faults(ctx, 0, short)
    stream = EPath("/vtfs/t.tar").open("rb")
    if ctx.bool("moved before"):
        stream.seek(ctx.int("before", 0))
    f = SubFileReader(stream, off, size)
    pos = 0
    for i in range(ops):
        k = ctx.choose(f"op.{i}", ["read", "all", "all2", "seek"])
        if k == "seek":
            wh = ctx.choose(f"whence.{i}", [0, 1, 2])
            o = ctx.int(f"off.{i}")
            pos = ref_seek(size, pos, o, wh)
            r = f.seek(o, wh)
            ctx.check(r == pos, "seek", lambda: f"seek({o!r}, {wh}) returned {r!r}, expected {pos!r}")
        else:
            n = ctx.int(f"n.{i}", 0) if k == "read" else -1 if k == "all" else -2
            before = vfs.FAULTS.short
            got = f.read(n)
            m = vmin(n, size - pos) if k == "read" else size - pos
            if vfs.FAULTS.short == before:
                ctx.check(vfs.vlen(got) == m, "read", lambda: f"read({n!r}) at {pos!r} of {size!r}: {got!r}")
            else:
                m = vfs.vlen(got)
            if m > 0:
                ctx.check(got.file is node and got.start == off + pos, "read", lambda: f"read({n!r}) at {pos!r}: {got!r}")
            pos = pos + m
        ctx.check(f.tell() == pos, "tell", lambda: f"tell() {f.tell()!r} expected {pos!r}")
    with f:
        pass
    ctx.check(stream.closed, "close", "the underlying stream stays open")
    vfs.FAULTS = None
    ctx.reach("window")


def h_index(ctx, n):
    """what is written is read back; a broken-off or crashed writer leaves the old index or none"""
    vfs.patch()
    fs = vfs.new()
    p = EPath("/vtfs/a/t.tar")
    idx, tmp = "/vtfs/a/t.tar.idx", "/vtfs/a/t.tar.idx.tmp"
    old = None
    if ctx.bool("old index"):
        old = [ctx.int(f"old.{i}", 0) for i in range(2)]
        fs.add(vfs.Words(idx, list(old)))
    vals = [ctx.int(f"v.{i}", 0, 2**64 - 1) for i in range(n)]
    crash = ctx.pick("crash", 0, n + 5)
    fails = ctx.pick("fails", 0, n + 1)  # the caller fails before the value of that number
    ticks = [0]

    def tick(what):
        ticks[0] += 1
        if ticks[0] == crash:
            raise Crash(what)

    fs.on_tick = tick
    crashed = failed = False
    try:
        with TarIndexWriter(p) as w:
            for i, v in enumerate(vals):
                if fails == i + 1:
                    raise KeyError("caller")
                w.append(v)
    except KeyError:
        failed = True
    except Crash:
        crashed = True
    fs.on_tick = None
    now = fs.nodes[idx].values if idx in fs.nodes else None
    if not crashed:
        ctx.check(tmp not in fs.nodes, "temporary file", "left behind")
    if failed or crashed and now is not None and len(now) == (len(old) if old is not None else -1):
        ctx.check(now == old, "old index", lambda: f"{now} instead of {old}")
    elif now is None:
        ctx.check(crashed and old is None, "index", "no index")
    else:
        ctx.check(len(now) == n, "incomplete index", lambda: f"{len(now)} of {n} entries")
        with TarIndexReader(p) as r:
            ctx.check(len(r) == n, "length", lambda: f"{len(r)} of {n}")
            i = ctx.pick("i", -2, n + 1)
            try:
                v = r[i]
            except IndexError:
                ctx.check((i < 0) | (i >= n), "range", lambda: f"entry {i!r} of {n} missing")
                ctx.reach("out of range")
            else:
                ctx.check(vand(i >= 0, i < n), "range", lambda: f"entry {i!r} of {n}")
                ctx.check(v == vals[i], "entry", lambda: f"entry {i!r}: {v!r}")
                if n:
                    j = ctx.pick("j", 0, n - 1)
                    ctx.check(get_itar_byte_offset(p, j) == (vals[j] if j else 0), "offset", f"offset of {j}")
    ctx.reach("index")


def h_open(ctx, n, parts, faults, short):
    """opening samples a..b-1 yields exactly their members"""
    vfs.patch()
    fs = vfs.new()
    t = fs.add(vfs.Tar("/vtfs/t.tar", simple(n, parts, junk=True), tag="t"))
    idx = vfs.sample_index(t, base_of)
    fs.add(vfs.Words("/vtfs/t.tar.idx", idx))
    p = EPath("/vtfs/t.tar")
    a = ctx.pick("a", 0, n - 1)
    b = ctx.pick("b", a + 1, n)
    start = get_itar_byte_offset(p, a)
    first = 0 if a == 0 else idx[a]
    ctx.check(start == first, "start", lambda: f"sample {a} starts at {start!r}")
    end = idx[b]
    to_end = b == n and ctx.bool("to the end")
    fl = vfs.FAULTS = Faults(ctx, faults, short)
    if not ctx.bool("first open may fail"):
        fl.on = False
    else:
        ctx.assume(faults > 0)
    got = []
    try:
        with open_itar(p, byte_offset=start, byte_size=None if to_end else end - start) as tar:
            fl.on = True
            for ti in tar:
                got.append((ti.name, tar.extractfile(ti).read() if ti.isfile() else None))
    except OSError:
        # opening the file a first time, outside of the retrying stream
        ctx.check(fl.hit > 0 and not got, "fault", "a fault while reading is not retried")
        return
    exp = [(m, t.data(i) if reg else None) for i, (m, reg) in enumerate(t.members)
           if bool(t.off[i] >= first) and bool(t.off[i] < end)]
    ctx.check([x[0] for x in got] == [x[0] for x in exp], "members", lambda: f"{got} expected {exp}")
    ctx.check(same(exp, got), "content", lambda: f"{got} expected {exp}")
    ctx.reach("opened")


def instances(tier):
    q = tier == "quick"
    out = []
    for ops, short in ((2, 0), (2, 1)) if q else ((3, 0), (3, 1), (4, 0)):
        out.append(dict(name=f"window ops={ops} short={short}", fn=lambda c, o=ops, s=short: h_window(c, o, s), reach=("window",),
                        bounds=f"any window of any file, {ops} reads or seeks with any arguments, {short} short reads", weight=4))
    for n in (0, 1, 3) if q else (0, 1, 2, 3, 5):
        out.append(dict(name=f"index n={n}", fn=lambda c, n=n: h_index(c, n), reach=("index", "out of range"),
                        bounds=f"{n} entries of any value, every crash point, failure before every entry"))
    for n, parts, faults, short in ((3, 1, 0, 0), (2, 2, 0, 0), (2, 1, 1, 1), (2, 1, 2, 0)) if q else \
            ((4, 2, 0, 0), (3, 2, 1, 1), (2, 1, 3, 0), (2, 1, 1, 2)):
        out.append(dict(name=f"open n={n} parts={parts} faults={faults} short={short}", reach=("opened",), weight=3,
                        fn=lambda c, a=(n, parts, faults, short): h_open(c, *a),
                        bounds=f"{n} samples of {parts} members of any size, every range of samples, {faults} faults, {short} short reads"))
    return out
