"""In-memory file system below /vtfs, with tar files whose layout is symbolic.

Patched: fsspec's LocalFileSystem (paths below /vtfs only), `tarfile.open` for streams on such files, and
`struct.pack/unpack` as used by the tar index (64 bit values may be symbolic).  Reads return
`VBytes` (file, start, length) slices with symbolic bounds, so everything between the data set and the file
(index lookup, sub-file windows, retrying stream, seeking) is the real code.
"""

import errno
import io
import struct as _struct
import tarfile

from fsspec.implementations.local import LocalFileSystem

from . import engine
from .engine import HarnessError, SymInt

ROOT = "/vtfs/"


def vlen(x):
    f = getattr(type(x), "__vt_len__", None)
    return f(x) if f is not None else len(x)


class VBytes:
    """bytes [start, start+n) of a virtual file"""

    def __init__(self, file, start, n):
        self.file, self.start, self.n = file, start, n

    def __vt_len__(self):
        return self.n

    def __len__(self):
        return int(self.n) if isinstance(self.n, int) else self.n.__index__()

    def __bool__(self):
        return bool(self.n != 0)

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)):
            if len(o) == 0:
                return self
            return NotImplemented
        if isinstance(o, VBytes):
            if o.n == 0:
                return self
            if self.n == 0:
                return o
            if o.file is self.file and self.start + self.n == o.start:
                return VBytes(self.file, self.start, self.n + o.n)
            return VBytes(Node(f"pieces of {self.file.path} and {o.file.path}"), 0, self.n + o.n)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)) and len(o) == 0:
            return self
        return NotImplemented

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            a = 0 if k.start is None else k.start
            b = self.n if k.stop is None else k.stop
            a = self.n + a if a < 0 else engine.vmin(a, self.n)
            b = self.n + b if b < 0 else engine.vmin(b, self.n)
            return VBytes(self.file, self.start + a, engine.vmax(b - a, 0))
        raise HarnessError("index into virtual bytes")

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            if len(o) == 0:
                return self.n == 0
            return False  # virtual tar files are not compressed files
        if isinstance(o, VBytes):
            return self.__vt_same__(o)
        return NotImplemented

    def startswith(self, o):
        return False

    def __hash__(self):
        return hash(self.file.path)

    def __vt_same__(self, o):
        if not isinstance(o, VBytes) or o.file.path != self.file.path:
            return False
        return engine.vand(self.start == o.start, self.n == o.n)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.file.path}[{self.start!r}+{self.n!r}]>"


class VU64:
    """an encoded 64 bit value"""

    def __init__(self, v):
        self.v = v

    def __len__(self):
        return 8

    __vt_len__ = __len__

    def __deepcopy__(self, memo):
        return self


class Node:
    def __init__(self, path):
        self.path = path


class Text(Node):
    def __init__(self, path, data):
        super().__init__(path)
        self.data = data.encode() if isinstance(data, str) else data

    def size(self):
        return len(self.data)


class Words(Node):
    """a file of 64 bit values"""

    def __init__(self, path, values=()):
        super().__init__(path)
        self.values = list(values)

    def size(self):
        return 8 * len(self.values)


class Tar(Node):
    """members: (name, regular file?); data padded to 512; headers of 512 bytes (or any number of blocks)"""

    def __init__(self, path, members, tag=None, max_size=5000, long_headers=False):
        super().__init__(path)
        self.members = list(members)
        self.off, self.dat, self.hdr = [], [], []
        self.cut = None
        self.long = long_headers
        pos = 0
        c = engine.cur()
        for i, (name, reg) in enumerate(self.members):
            self.off.append(pos)
            if reg and tag is not None:
                b = c.int(f"blocks.{tag}.{i}", 1, max_size)
                d = 512 * b - 100  # never a multiple of the block size: padding is always there
            else:
                b, d = (1, 300) if reg else (0, 0)
            h = 512 * c.int(f"header.{tag}.{i}", int(long_headers), 7) if long_headers else 512
            self.dat.append(d)
            self.hdr.append(h)
            pos = pos + h + 512 * b
        self.end = pos

    def size(self):
        return self.cut if self.cut is not None else self.end + 1024

    def data(self, i):
        return VBytes(self, self.off[i] + self.hdr[i], self.dat[i])


class VFile:
    def __init__(self, node):
        self.node, self.pos, self.closed = node, 0, False

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def seek(self, offset, whence=0):
        self._open()
        if FAULTS is not None:
            FAULTS.seeking(self)
        if whence == 1:
            offset = self.pos + offset
        elif whence == 2:
            offset = self.node.size() + offset
        if offset < 0:
            raise OSError(errno.EINVAL, "negative seek")
        self.pos = offset
        return offset

    def tell(self):
        return self.pos

    def read(self, n=-1):
        self._open()
        size = self.node.size()
        left = size - self.pos
        if left < 0:
            left = 0
        if n is None or n < 0:
            n = left
        if n > left:
            n = left
        n = FAULTS.short_read(self, n) if FAULTS is not None else n
        start, self.pos = self.pos, self.pos + n
        if isinstance(self.node, Words):
            if n == 0:
                return b""
            if not (n == 8) or start % 8 != 0:
                raise HarnessError("unaligned index read")
            i = start // 8
            if not isinstance(i, int):
                i = i.__index__()
            return VU64(self.node.values[i])
        return VBytes(self.node, start, n)

    def close(self):
        self.closed = True

    def seekable(self):
        return True

    def readable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Blob(Node):
    """a file of any size"""

    def __init__(self, path, n):
        super().__init__(path)
        self.n = n

    def size(self):
        return self.n


class NoFaults:
    def opening(self, path):
        pass

    def seeking(self, file):
        pass

    def short_read(self, file, n):
        return n


class VWriter:
    def __init__(self, fs, path):
        self.fs, self.path, self.closed = fs, path, False
        self.node = Words(path)
        self.text = bytearray()
        fs.put(path, self.node)

    def write(self, b):
        if isinstance(b, VU64):
            self.node.values.append(b.v)
        else:
            b = b.encode() if isinstance(b, str) else b
            self.text += b
            self.fs.nodes[self.path] = Text(self.path, bytes(self.text))
        self.fs.tick(f"write {self.path}")
        return len(b)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.tick(f"close {self.path}")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class VFS:
    def __init__(self):
        self.nodes = {}
        self.dirs = {"/vtfs"}
        self.on_tick = None

    def tick(self, what):
        """every change of the file system (crash points)"""
        if self.on_tick is not None:
            self.on_tick(what)

    def put(self, path, node):
        self.nodes[path] = node
        self.tick(f"create {path}")
        return node

    def add(self, node):
        self.nodes[node.path] = node
        p = node.path
        while "/" in p[1:]:
            p = p.rsplit("/", 1)[0]
            self.dirs.add(p)
        return node

    def text(self, path, data):
        return self.add(Text(path, data))


CUR = VFS()
FAULTS = None


def new():
    global CUR, FAULTS
    CUR = VFS()
    FAULTS = None
    return CUR


class VTarInfo:
    def __init__(self, name, reg, offset, size, index, offset_data):
        self.name, self.reg, self.offset, self.size, self.index = name, reg, offset, size, index
        self.offset_data = offset_data

    def isreg(self):
        return self.reg

    isfile = isreg

    def isdir(self):
        return not self.reg


class VTarFile:
    """what tarfile does on a stream (modes 'r|' and 'r:*'): headers in turn, offsets relative to the stream"""

    def __init__(self, fileobj, stream):
        self.f, self.stream = fileobj, stream
        self.base = None
        self.offset = 0
        self.pos = 0
        self.last = None
        self.done = False
        self.closed = False

    def _read(self, pos, n):
        if self.stream:
            if pos < self.pos:
                raise tarfile.StreamError("seeking backwards is not allowed")
            if self.pos < pos:
                self.pos = self.pos + vlen(self.f.read(pos - self.pos))
                if self.pos < pos:
                    return None
        else:
            self.f.seek(pos)
            self.pos = pos
        b = self.f.read(n)
        self.pos = self.pos + vlen(b)
        return b

    def next(self):
        if self.done:
            return None
        if self.offset != self.pos:
            if self._read(self.offset - 1, 1) in (None, b""):
                raise tarfile.ReadError("unexpected end of data")
        b = self._read(self.offset, 512)
        if b is None or b == b"":
            self.done = True
            if self.offset == 0:
                raise tarfile.ReadError("empty file")
            return None
        node = b.file
        if b.n < 512:
            self.done = True
            if self.offset == 0:
                raise tarfile.ReadError("truncated header")
            return None
        start = self.last + 1 if self.last is not None else 0
        order = list(range(start, len(node.members))) + list(range(0, start))
        for i in order:
            if b.start == node.off[i]:
                break
        else:
            if b.start >= node.end:
                self.done = True
                return None
            self.done = True
            if self.offset == 0:
                raise tarfile.ReadError("invalid header")
            return None
        self.last = i
        if node.long:
            b = self._read(self.offset + 512, node.hdr[i] - 512)
            if b is None or vlen(b) < node.hdr[i] - 512:
                raise tarfile.ReadError("missing or bad subsequent header")
        ti = VTarInfo(node.members[i][0], node.members[i][1], self.offset, node.dat[i], i, self.offset + node.hdr[i])
        ti.node = node
        nxt = node.off[i + 1] if i + 1 < len(node.off) else node.end
        self.offset = self.offset + (nxt - node.off[i])
        return ti

    def __iter__(self):
        while True:
            ti = self.next()
            if ti is None:
                return
            yield ti

    def getmembers(self):
        return list(self)

    def extractfile(self, ti):
        return _Member(self, ti)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Member:
    def __init__(self, tar, ti):
        self.tar, self.ti = tar, ti

    def read(self, n=None):
        b = self.tar._read(self.ti.offset_data, self.ti.size)
        if b is None or vlen(b) < self.ti.size:
            raise tarfile.ReadError("unexpected end of data")
        return b if b != b"" else VBytes(self.ti.node, self.ti.node.data(self.ti.index).start, 0)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class FakeStruct:
    """struct with symbolic 64 bit values"""

    def __getattr__(self, n):
        return getattr(_struct, n)

    def pack(self, fmt, *v):
        if fmt.lstrip("@=<>!") == "Q" and len(v) == 1:
            return VU64(v[0])
        return _struct.pack(fmt, *v)

    def unpack(self, fmt, b):
        if isinstance(b, VU64) and fmt.lstrip("@=<>!") == "Q":
            return (b.v,)
        return _struct.unpack(fmt, b)


_orig = {}


def _virtual(path):
    return str(path).startswith(ROOT)


def _path(p):
    return str(p)


def patch():
    if _orig:
        return
    L = LocalFileSystem
    for n in ("open", "size", "isfile", "isdir", "exists", "mkdir", "makedirs", "mv", "rm", "glob", "info"):
        _orig[n] = getattr(L, n)
    _orig["taropen"] = tarfile.open

    def op(self, path, mode="rb", block_size=None, **k):
        if not _virtual(path):
            return _orig["open"](self, path, mode, block_size=block_size, **k)
        path = _path(path)
        if "w" in mode:
            return VWriter(CUR, path)
        if path not in CUR.nodes:
            raise FileNotFoundError(errno.ENOENT, "No such file", path)
        if FAULTS is not None:
            FAULTS.opening(path)
        node = CUR.nodes[path]
        if isinstance(node, Text):
            return io.BytesIO(node.data) if "b" in mode else io.StringIO(node.data.decode())
        return VFile(node)

    def info_of(path):
        path = _path(path)
        if path in CUR.nodes:
            return dict(name=path, size=CUR.nodes[path].size(), type="file")
        if path.rstrip("/") in CUR.dirs:
            return dict(name=path, size=0, type="directory")
        raise FileNotFoundError(errno.ENOENT, "No such file", path)

    def wrap(name, f):
        o = _orig[name]

        def g(self, path, *a, **k):
            return f(path, *a, **k) if _virtual(path) else o(self, path, *a, **k)
        setattr(L, name, g)

    L.open = op
    wrap("size", lambda p: info_of(p)["size"])
    wrap("info", lambda p, **k: info_of(p))
    wrap("isfile", lambda p: _path(p) in CUR.nodes)
    wrap("isdir", lambda p: _path(p).rstrip("/") in CUR.dirs)
    wrap("exists", lambda p, **k: _path(p) in CUR.nodes or _path(p).rstrip("/") in CUR.dirs)

    def mkdir(p, *a, **k):
        p = _path(p)
        if p in CUR.dirs:
            raise FileExistsError(p)
        CUR.dirs.add(p)
        CUR.tick(f"mkdir {p}")
    wrap("mkdir", mkdir)

    def makedirs(p, exist_ok=False):
        CUR.dirs.add(_path(p))
    wrap("makedirs", makedirs)

    def mv(p, q, **k):
        n = CUR.nodes.pop(_path(p))
        n.path = _path(q)
        CUR.nodes[_path(q)] = n
        CUR.tick(f"move {p} {q}")
    wrap("mv", mv)

    def rm(p, **k):
        if _path(p) not in CUR.nodes:
            raise FileNotFoundError(p)
        del CUR.nodes[_path(p)]
        CUR.tick(f"remove {p}")
    wrap("rm", rm)

    def taropen(name=None, mode="r", fileobj=None, *a, **k):
        if fileobj is not None and not isinstance(fileobj, io.IOBase):
            return VTarFile(fileobj, "|" in mode)
        return _orig["taropen"](name, mode, fileobj, *a, **k)

    tarfile.open = taropen
    import megatron.energon.flavors.webdataset.itar as itar

    itar.struct = FakeStruct()


def sample_index(tar, split_re):
    """oracle for the index: offset of the first member of every sample, and the end"""
    out, last = [], None
    for (name, reg), off in zip(tar.members, tar.off):
        base = split_re(name) if reg else None
        if base is None:
            continue
        if base != last:
            out.append(off)
            last = base
    return out + [tar.end]
