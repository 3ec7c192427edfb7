"""RetryReadStream: reads through faults and short reads return what the file holds."""

from megatron.energon.epathlib import EPath
from megatron.energon.retry_stream import RetryReadStream

from vt import vfs
from vt.engine import vmax, vmin

ASSUMPTIONS = [
    "the underlying file is a model: open, seek and read fail at solver-chosen points with an OSError (EIO or a "
    "connection error), a failing read may have moved the file position, a read may return fewer bytes than asked for "
    "(at least one unless the end is reached); the file does not change while it is read",
]

PATH = "/vtfs/blob.bin"


class Faults(vfs.NoFaults):
    """fails at the chosen points; `left` faults and `short` short reads remain"""

    def __init__(self, ctx, faults, short, always=False):
        self.ctx, self.left, self.short, self.always, self.n = ctx, faults, short, always, 0
        self.on = True
        self.hit = 0

    def _fail(self, what, file=None):
        if not self.on or self.left == 0:
            return
        self.n += 1
        if self.always or self.ctx.bool(f"fault.{self.n}.{what}"):
            self.left -= 1
            self.hit += 1
            if file is not None:
                file.pos = file.pos + self.ctx.int(f"moved.by.{self.n}", 0)
            raise (ConnectionResetError if self.hit % 2 else OSError)("injected")

    def opening(self, path):
        self._fail("open")

    def seeking(self, file):
        self._fail("seek", file)

    def short_read(self, file, n):
        self._fail("read", file)
        if self.on and self.short > 0 and n > 1:
            if self.ctx.bool(f"short.{self.n}.{self.short}"):
                self.short -= 1
                n = self.ctx.int(f"short.n.{self.short}", 1, n - 1)
        return n


def make(ctx):
    vfs.patch()
    fs = vfs.new()
    size = ctx.int("size", 0)
    node = fs.add(vfs.Blob(PATH, size))
    return node, size


def expect_read(ctx, node, size, pos, n, got):
    """got is what a read of n at pos must return; returns the new position"""
    m = size - pos if isinstance(n, int) and n < 0 else vmin(n, size - pos)
    ctx.check(got is not None, "read", "read returned None")
    ctx.check(vfs.vlen(got) == m, "read", lambda: f"read({n!r}) at {pos!r} of {size!r}: {got!r}, expected {m!r} bytes")
    if m > 0:
        ctx.check(isinstance(got, vfs.VBytes) and got.file is node and got.start == pos, "read", lambda: f"read({n!r}) at {pos!r}: {got!r}")
    return pos + m


def ref_seek(size, pos, off, whence):
    p = off if whence == 0 else pos + off if whence == 1 else size + off
    return vmax(0, vmin(p, size))


def op(ctx, i, f, node, size, pos, kinds=("read", "all", "seek"), whence=(0, 1, 2)):
    k = ctx.choose(f"op.{i}", list(kinds))
    if k == "seek":
        wh = ctx.choose(f"whence.{i}", list(whence))
        off = ctx.int(f"off.{i}")
        pos = ref_seek(size, pos, off, wh)
        r = f.seek(off, wh)
        ctx.check(r == pos, "seek", lambda: f"seek({off!r}, {wh}) returned {r!r}, expected {pos!r}")
    else:
        n = ctx.int(f"n.{i}", 0) if k == "read" else -1
        pos = expect_read(ctx, node, size, pos, n, f.read(n))
    ctx.check(f.tell() == pos, "tell", lambda: f"tell() {f.tell()!r}, expected {pos!r}")
    return pos


def h_ops(ctx, ops, faults, short, **k):
    node, size = make(ctx)
    f = RetryReadStream(EPath(PATH))
    vfs.FAULTS = Faults(ctx, faults, short)
    pos = 0
    with f:
        for i in range(ops):
            pos = op(ctx, i, f, node, size, pos, **k)
    vfs.FAULTS = None
    ctx.reach("ops")


def h_persist(ctx, fails, after):
    """`fails` failures in a row: a read survives 9; with more it raises, and then goes on where it was"""
    node, size = make(ctx)
    ctx.assume(size > 0)
    f = RetryReadStream(EPath(PATH))
    pos = 0
    fl = vfs.FAULTS = Faults(ctx, 0, 1)
    if ctx.bool("opened"):
        pos = op(ctx, 0, f, node, size, pos, whence=(0,))
    fl.left = fails
    fl.always = True
    n = ctx.int("n", 1)
    ctx.assume(pos < size)
    try:
        got = f.read(n)
    except OSError:
        ctx.check(fails >= 10, "persistent", f"a read raised after {fails} failures")
        ctx.check(f.tell() == pos, "position", lambda: f"after a failed read at {f.tell()!r}, was at {pos!r}")
    else:
        ctx.check(fails < 10, "persistent", f"a read made more than 10 attempts: {fails}")
        pos = expect_read(ctx, node, size, pos, n, got)
    fl.left = 0
    for i in range(after):
        pos = op(ctx, 1 + i, f, node, size, pos, whence=(1,))
    f.close()
    vfs.FAULTS = None
    ctx.reach("persist")


def h_shrunk(ctx):
    """a file shorter than it was when opened: an error, never wrong bytes or None"""
    node, size = make(ctx)
    f = RetryReadStream(EPath(PATH))
    node.n = ctx.int("shrunk", 0)
    ctx.assume(node.n < size)
    n = ctx.choose("n", [-1, 0]) or ctx.int("bytes", 1)
    try:
        got = f.read(n)
    except OSError:
        ctx.check(True if n == -1 else n > node.n, "shrunk", "error for bytes that are there")
        ctx.reach("error")
    else:
        ctx.check(got is not None and n != -1 and vfs.vlen(got) == n, "shrunk", lambda: f"read({n!r}) of a file cut to {node.n!r} returned {got!r}")
        ctx.check(got.start == 0, "shrunk", lambda: f"{got!r}")
        ctx.reach("data")


def instances(tier):
    q = tier == "quick"
    out = []
    for ops, faults, short in ((3, 0, 0), (3, 1, 0), (2, 2, 1), (2, 0, 2)) if q else \
            ((5, 0, 0), (4, 1, 0), (3, 2, 1), (3, 1, 2), (2, 3, 2), (2, 0, 4)):
        out.append(dict(name=f"ops={ops} faults={faults} short={short}", reach=("ops",), weight=3,
                        fn=lambda c, o=ops, f=faults, s=short: h_ops(c, o, f, s, whence=(0, 1, 2) if q and not f or not q and f < 2 else (0,)),
                        bounds=f"any file size, {ops} reads or seeks with any arguments, up to {faults} faults at any "
                               f"open, seek or read, up to {short} short reads"))
    for fails in (1, 2, 9, 10, 11) if q else range(1, 13):
        out.append(dict(name=f"persistent {fails}", fn=lambda c, f=fails: h_persist(c, f, 1 if q else 2), reach=("persist",),
                        bounds=f"{fails} failures in a row in one read"))
    out.append(dict(name="shrunk", fn=h_shrunk, reach=("error", "data"), bounds="any sizes"))
    return out
