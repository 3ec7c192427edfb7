"""EPath: paths of local and remote file systems, for every string of bounded length."""

import os
import pathlib
import sys

import s3fs
from fsspec.implementations.local import LocalFileSystem

from megatron.energon.epathlib import EPath
from megatron.energon.epathlib import epath as _epath_module
from megatron.energon.epathlib.rclone_config import ConfigEntry, read_rclone_config_at_path

from vt import symstr
from vt.engine import vand, vor
from vt.symstr import text

STRINGS = True
ASSUMPTIONS = [
    "characters are printable ASCII; the standard library's pathlib and posixpath are executed from their own source, with regular "
    "expressions matched by vt/symstr.py",
    "file systems are recorders of the calls they get: local and S3 with the endpoint of the remote",
]

Path = sys.modules.get("vt_pathlib", pathlib).Path
CALLS = []


class FakeS3:
    protocol = ("s3", "s3a")

    def __init__(self, **args):
        self.args = args
        self._pid = os.getpid()

    @classmethod
    def clear_instance_cache(cls):
        pass

    def __eq__(self, o):
        return isinstance(o, FakeS3) and self.args == o.args

    def __hash__(self):
        return 1


def recorder(fs_name, op):
    def call(self, *a, **k):
        CALLS.append((fs_name if isinstance(fs_name, str) else self.args["endpoint_url"], op, a, k))
        return GLOB if op == "glob" else (op, len(CALLS))
    return call


GLOB = []
OPS = ("open", "isdir", "isfile", "mkdir", "makedirs", "glob", "size", "mv", "rm", "ls", "exists", "info", "rmdir", "rm_file", "move",
       "copy", "cp_file", "touch")
for op in OPS:
    setattr(LocalFileSystem, op, recorder("local", op))
    setattr(FakeS3, op, recorder(None, op))
_real = s3fs.S3FileSystem
s3fs.S3FileSystem = FakeS3
for k, v in list(vars(_epath_module).items()):
    if v is _real:
        setattr(_epath_module, k, FakeS3)


class Config(dict):
    """rclone configuration; symbolic remote names can be looked up"""

    def _find(self, k):
        return next((x for x in self if x == k), None)

    def __contains__(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        return dict.__getitem__(self, f)

    def get(self, k, d=None):
        return self[k] if k in self else d


def entry(name):
    return ConfigEntry(name=name, type="s3", provider=None, access_key_id="id" + name, secret_access_key="key" + name,
                       region="reg" + name, endpoint=f"https://{name}.com")


CONFIG = Config({n: entry(n) for n in ("r", "s", "rr")})


def st(x):
    return symstr.vt_str(x)


def components(s):
    return [c for c in s.split("/") if c and not bool(c == ".")]


def root(s):
    if not s.startswith("/"):
        return ""
    return "//" if s.startswith("//") and not s.startswith("///") else "/"


def shown(r, c):
    return r + symstr.join("/", c) if r or c else "."


def resolved(cs):
    """lexically; None: above the root"""
    out = []
    for c in cs:
        if bool(c == ".."):
            if not out:
                return None
            out.pop()
        else:
            out.append(c)
    return out


def has_protocol(s):
    i = s.find("://")
    return i > 0 and len(s) > i + 3 and all(vand(c >= "a", c <= "z") for c in s[:i])


def raises(fn, *errors):
    try:
        fn()
    except errors:
        return True
    return False


def eqs(a, b):
    """two lists of strings are the same"""
    return vand(len(a) == len(b), *[x == y for x, y in zip(a, b)])


def parent_of(r, c):
    return shown(r, c[:-1])


def check_local(ctx, p, r, c):
    """p is the local path of root r and components c"""
    want = shown(r, c)
    ctx.check(st(p) == want, "path", lambda: f"{st(p)!s}, expected {want!s}")
    ctx.check(p.is_absolute() == bool(r), "absolute", lambda: f"{st(p)!s}: {p.is_absolute()}")
    ctx.check(p.name == (c[-1] if c else ""), "name", lambda: f"{st(p)!s}: {p.name!s}")
    ctx.check(st(p.parent) == parent_of(r, c), "parent", lambda: f"{st(p)!s}: {st(p.parent)!s}")
    ctx.check(st(p) == want, "changed", lambda: f"{st(p)!s}, expected {want!s}")
    if r:
        check_calls(ctx, p, "local", want)
    else:
        ctx.check(raises(p.is_file, AssertionError) and raises(p.open, AssertionError), "relative", "a relative path can be used")


def check_calls(ctx, p, fs, want, ops=("isfile", "open")):
    """the file operations of p use the path `want` of file system fs"""
    for op, call in (("isfile", p.is_file), ("open", lambda: p.open("rb")), ("isdir", p.is_dir), ("size", p.size), ("rm", p.unlink),
                     ("makedirs", lambda: p.mkdir(parents=True)), ("mkdir", p.mkdir)):
        if op not in ops:
            continue
        del CALLS[:]
        out = call()
        got = [(f, o) for f, o, _, _ in CALLS]
        ctx.check(got == [(fs, op)] and out == (op, 1), "call", lambda: f"{op} of {st(p)!s}: {CALLS}")
        a = CALLS[0][2]
        ctx.check(same_path(a[0], want), "call", lambda: f"{op} of {st(p)!s}: {a}, expected {want!s}")
        if op == "open":
            k = CALLS[0][3]
            ctx.check((a[1] if len(a) > 1 else k.get("mode")) == "rb", "call", lambda: f"{CALLS}")


def same_path(got, want):
    if not symstr.is_str(got):
        return False
    return got == want


def h_local(ctx, n, chars=(32, 126)):
    s = text(ctx, "s", n, *chars)
    if has_protocol(s):
        ctx.check(raises(lambda: EPath(s), ValueError), "protocol", lambda: f"{s!s} was accepted")
        ctx.reach("protocol")
        return
    p = EPath(s)
    r, c = root(s), components(s)
    check_local(ctx, p, r, c)
    q = EPath(p)
    check_local(ctx, q, r, c)
    ctx.check(p == q and q == p and hash(p) == hash(q), "copy", lambda: f"{st(p)!s}")
    again = EPath(st(p))
    ctx.check(vand(again == p, st(again) == st(p)), "round trip", lambda: f"{st(p)!s} -> {st(again)!s}")
    if r:
        ctx.check(st(p.absolute()) == st(p), "absolute", lambda: f"{st(p.absolute())!s}")
    ctx.reach("absolute" if r else "relative")


def h_absolute(ctx, n):
    """relative paths and pathlib paths are below the working directory"""
    s = text(ctx, "s", n, not_="/")
    old = os.getcwd
    for m in {id(x): x for x in (os, sys.modules.get("vt_os", os))}.values():
        m.getcwd = lambda: "/cwd/d"
    try:
        c = ["cwd", "d"] + components(s)
        for p in (EPath(s).absolute(), EPath(Path(s))):
            ctx.check(st(p) == shown("/", c), "absolute", lambda: f"{s!s} -> {st(p)!s}")
            ctx.check(p.is_absolute(), "absolute", lambda: f"{st(p)!s}")
        a = EPath(Path("/" + s))
        ctx.check(st(a) == shown(root("/" + s), components("/" + s)), "absolute", lambda: f"{st(a)!s}")
    finally:
        for m in {id(x): x for x in (os, sys.modules.get("vt_os", os))}.values():
            m.getcwd = old
    ctx.reach("done")


def h_join(ctx, nb, nr, remote=False, chars=(32, 126), as_epath=False):
    """base / rel"""
    b = "/" + text(ctx, "b", nb, *chars)
    rel = text(ctx, "rel", nr, *chars)
    ctx.assume(not has_protocol(rel))
    if remote:
        ctx.assume(not any(bool(c == "..") for c in components(b)))  # (h_remote)
        base = EPath("rclone://r" + b, config_override=CONFIG)
    else:
        base = EPath(b)
    before = st(base)
    arg = EPath(rel) if as_epath else rel
    if rel.startswith("/"):
        p = base / arg
        check_local(ctx, p, root(rel), components(rel))
        ctx.reach("absolute")
        return
    want = resolved(components(b) + components(rel))
    err = None
    try:
        p = base / arg
    except ValueError as e:
        err = e
    ctx.check(st(base) == before, "changed", lambda: f"{before!s} became {st(base)!s}")
    if want is None:
        ctx.check(err is not None, "above root", lambda: f"{before!s} / {rel!s} = {st(p)!s}")
        ctx.reach("above")
        return
    ctx.check(err is None, "join", lambda: f"{before!s} / {rel!s}: {err}")
    if remote:
        check_remote(ctx, p, "r", want)
    else:
        check_local(ctx, p, root(b), want)
    ctx.reach("joined")


def check_remote(ctx, p, name, c, ops=("isfile", "open")):
    want = "rclone://" + symstr.join("/", [name] + c)
    ctx.check(st(p) == want, "path", lambda: f"{st(p)!s}, expected {want!s}")
    ctx.check(p.is_absolute() and p.absolute() == p, "absolute", lambda: f"{st(p)!s}")
    ctx.check(p.fs == FakeS3(**s3_args(name)), "file system", lambda: f"{st(p)!s}: {p.fs.args}")
    check_calls(ctx, p, f"https://{st(name)}.com" if isinstance(name, str) else None, shown("/", c), ops)
    up = p.parent
    ctx.check(st(up) == "rclone://" + symstr.join("/", [name] + c[:-1]), "parent", lambda: f"{st(p)!s}: {st(up)!s}")
    ctx.check(up.fs == p.fs and st(p) == want, "parent", lambda: f"{st(p)!s}")
    if c:
        ctx.check(p.name == c[-1], "name", lambda: f"{st(p)!s}: {p.name!s}")
    again = EPath(st(p), config_override=CONFIG)
    ctx.check(vand(again == p, st(again) == want, again.fs == p.fs), "round trip", lambda: f"{want!s} -> {st(again)!s}")
    ctx.check(hash(again) == hash(p), "hash", lambda: f"{want!s}")


def s3_args(name):
    return dict(anon=False, key="id" + name, secret="key" + name, endpoint_url=f"https://{name}.com",
                client_kwargs={"verify": False, "region_name": "reg" + name})


def h_remote(ctx, n, prefix="rclone://"):
    """a remote path; the remote is the first component"""
    s = text(ctx, "s", n)
    err = None
    try:
        p = EPath(prefix + s, config_override=CONFIG)
    except (ValueError, IndexError) as e:
        err = e
    c = resolved(components(s))
    if err is not None:
        known = bool(c) and any(bool(c[0] == k) for k in CONFIG)
        up = any(bool(x == "..") for x in components(s))
        ctx.check(not known or up, "rejected", lambda: f"{prefix}{s!s}: {err!r}")
        ctx.reach("rejected")
        return
    ctx.check(bool(c), "no remote", lambda: f"{prefix}{s!s} gave {st(p)!s}")
    name = next((k for k in CONFIG if c[0] == k), None)
    ctx.check(name is not None, "unknown remote", lambda: f"{prefix}{s!s} gave {st(p)!s}")
    check_remote(ctx, p, name, c[1:], OPS)
    ctx.check(st(EPath(p)) == st(p) and EPath(p).fs == p.fs, "copy", lambda: f"{st(p)!s}")
    ctx.reach("remote")


def two(ctx, na, nb, remote, name="r", **k):
    a, b = "/" + text(ctx, "a", na, **k), "/" + text(ctx, "b", nb, **k)
    ca, cb = components(a), components(b)
    for c in ca + cb:
        ctx.assume(not bool(c == ".."))
    if remote:
        return EPath("rclone://r" + a, config_override=CONFIG), EPath(f"rclone://{name}" + b, config_override=CONFIG), ca, cb, "/", "/"
    return EPath(a), EPath(b), ca, cb, root(a), root(b)


def h_relative(ctx, na, nb, remote):
    """(base / rel).relative_to(base) and back"""
    p, q, cp, cq, rp, rq = two(ctx, na, nb, remote)
    inside = rp == rq and len(cp) >= len(cq) and eqs(cp[:len(cq)], cq)
    err = None
    try:
        rel = p.relative_to(q)
    except ValueError as e:
        err = e
    if inside:
        ctx.check(err is None, "relative", lambda: f"{st(p)!s} to {st(q)!s}: {err}")
        ctx.check(rel == shown("", cp[len(cq):]), "relative", lambda: f"{st(p)!s} to {st(q)!s}: {rel!s}")
        ctx.check(vand(q / rel == p, st(q / rel) == st(p)), "back", lambda: f"{st(q)!s} / {rel!s}: {st(q / rel)!s}")
        ctx.reach("inside")
    else:
        ctx.check(err is not None, "outside", lambda: f"{st(p)!s} to {st(q)!s}: {rel!s}")
        ctx.reach("outside")


def h_compare(ctx, na, nb, remote):
    """equality, hashes and order"""
    p, q, cp, cq, rp, rq = two(ctx, na, nb, remote, lo=45, hi=50)
    eq = rp == rq and bool(eqs(cp, cq))
    ctx.check((p == q) == eq and (q == p) == eq and (p != q) == (not eq), "equal", lambda: f"{st(p)!s} {st(q)!s}")
    if eq:
        ctx.check(hash(p) == hash(q) and len({p, q}) == 1, "hash", lambda: f"{st(p)!s} {st(q)!s}")
        ctx.reach("equal")
    if rp == rq:
        less = next((bool(x < y) for x, y in zip(cp, cq) if not bool(x == y)), len(cp) < len(cq))
        ctx.check((p < q) == less, "order", lambda: f"{st(p)!s} < {st(q)!s}: {p < q}")
        ctx.check(not ((p < q) and (q < p)), "order", lambda: f"{st(p)!s} {st(q)!s}")
        ctx.reach("ordered")


def h_systems(ctx, n):
    """paths of different file systems"""
    s = text(ctx, "s", n, not_="./")
    ps = [EPath("/r/" + s), EPath("rclone://r/" + s, config_override=CONFIG), EPath("rclone://s/" + s, config_override=CONFIG)]
    i, j = ctx.pick("i", 0, 2), ctx.pick("j", 0, 2)
    p, q = ps[i], EPath(ps[j])
    del CALLS[:]
    ctx.check((p == q) == (i == j), "equal", lambda: f"{st(p)!s} == {st(q)!s}: {p == q}")
    for what, f in (("relative_to", lambda: p.relative_to(q)), ("move", lambda: p.move(q)), ("order", lambda: p < q)):
        ctx.check(raises(f, AssertionError, ValueError) == (i != j), what, lambda: f"{st(p)!s} and {st(q)!s}")
    ctx.check([c[:2] for c in CALLS] == ([] if i != j else [("local" if i == 0 else f"https://{'xrs'[i]}.com", "mv")]), "move",
              lambda: f"{CALLS}")
    ctx.reach("same" if i == j else "different")


def h_other_types(ctx):
    """a path is not equal to things that are no paths"""
    p = ctx.choose("p", [EPath("/a"), EPath("a"), EPath("rclone://r/a", config_override=CONFIG)])
    o = ctx.choose("o", ["/a", "a", None, 5, ("a",), Path("/a")])
    ctx.check((p == o) is False and (p != o) is True and o not in {p: 1} and p not in [o], "equal", lambda: f"{p!r} == {o!r}")
    ctx.reach("done")


def h_move(ctx, na, nb, remote):
    p, q, cp, cq, rp, rq = two(ctx, na, nb, remote)
    del CALLS[:]
    p.move(q)
    fs = "https://r.com" if remote else "local"
    ctx.check(len(CALLS) == 1 and CALLS[0][:2] == (fs, "mv"), "move", lambda: f"{CALLS}")
    a, b = CALLS[0][2]
    ctx.check(vand(same_path(a, shown(rp, cp)), same_path(b, shown(rq, cq))), "move", lambda: f"{CALLS}")
    ctx.reach("moved")


def h_glob(ctx, n, nf, remote):
    """the pattern is searched below the path, and what is found are paths of the same file system"""
    b = "/" + text(ctx, "b", n)
    for c in components(b):
        ctx.assume(not bool(c == ".."))
    ctx.assume(root(b) == "/")
    p = EPath("rclone://r" + b, config_override=CONFIG) if remote else EPath(b)
    f = text(ctx, "f", nf)
    found = components(b) + components(f)
    ctx.assume(not any(bool(c == "..") for c in found))
    GLOB[:] = [symstr.join("/", found) if remote else shown("/", found)]
    del CALLS[:]
    out = list(p.glob("*.tar"))
    ctx.check([c[:2] for c in CALLS] == [("https://r.com" if remote else "local", "glob")], "glob", lambda: f"{CALLS}")
    pat = CALLS[0][2][0]
    want = shown("/", components(b) + ["*.tar"])
    ctx.check(vor(pat == want, remote and pat == want[1:]), "pattern", lambda: f"{pat!s}, expected {want!s}")
    ctx.check(len(out) == 1, "glob", lambda: f"{out}")
    if remote:
        if found:
            check_remote(ctx, out[0], "r", found)
    else:
        check_local(ctx, out[0], "/", found)
    ctx.reach("found")


def h_suffix(ctx, n, ns, remote):
    s, x = text(ctx, "s", n), "." + text(ctx, "x", ns, not_="/")
    c = components("d/" + s)
    ctx.assume(len(c) > 1 and not any(bool(y == "..") for y in c))
    name = c[-1]
    i = name.rfind(".")
    stem = name[:i] if 0 < i < len(name) - 1 else name
    p = EPath("rclone://r/d/" + s, config_override=CONFIG) if remote else EPath("/d/" + s)
    ctx.assume(ns > 0)
    q = p.with_suffix(x)
    want = c[:-1] + [stem + x]
    if remote:
        check_remote(ctx, q, "r", want, ())
    else:
        check_local(ctx, q, "/", want)
    ctx.reach("done")


def h_forked(ctx, op):
    """a forked process uses its own connection, to the same remote"""
    p = EPath("rclone://r/a/b", config_override=CONFIG)
    q = EPath("rclone://r/a", config_override=CONFIG)
    old = p.fs
    old._pid = q.fs._pid = -1
    del CALLS[:]
    {"open": p.open, "is_dir": p.is_dir, "is_file": p.is_file, "mkdir": p.mkdir, "size": p.size, "unlink": p.unlink,
     "glob": lambda: list(p.glob("*")), "move": lambda: p.move(q), "read": lambda: p.relative_to(q)}[op]()
    ctx.check(p.fs is not old and p.fs == old and p.fs._pid == os.getpid(), "forked", lambda: f"{op}")
    ctx.reach("done")


def h_endpoint(ctx, n):
    """the endpoint gets https:// if it has no protocol"""
    e = text(ctx, "e", n)
    given = ctx.choose("given", ["", "http://", "https://", "http"])
    ctx.assume(given != "http" or not e.startswith("://") and not e.startswith("s://"))
    ctx.assume("://" not in e and not e.startswith("//") and not e.startswith(":/"))
    ent = entry("r")
    ent.endpoint = given + e
    p = EPath("rclone://r/a", config_override=Config({"r": ent}))
    want = (given if given.endswith("//") else "https://" + given) + e
    ctx.check(p.fs.args["endpoint_url"] == want, "endpoint", lambda: f"{ent.endpoint!s}: {p.fs.args}")
    ctx.check(p.fs.args["key"] == "idr" and p.fs.args["secret"] == "keyr" and
              p.fs.args["client_kwargs"]["region_name"] == "regr", "credentials", lambda: f"{p.fs.args}")
    ctx.reach("done")


def h_errors(ctx):
    """errors of the file system come out, but for existing directories if that is fine"""
    remote = ctx.bool("remote")
    p = EPath("rclone://r/a", config_override=CONFIG) if remote else EPath("/a")
    op = ctx.choose("op", ["mkdir", "makedirs", "open", "isfile", "isdir", "size", "rm", "mv", "glob"])
    ok = ctx.bool("exist_ok")
    exc = ctx.choose("exc", [FileExistsError, OSError, PermissionError])
    cls = type(p.fs)
    old = getattr(cls, op)

    def fails(self, *a, **k):
        if op == "makedirs" and k.get("exist_ok", False if len(a) < 2 else a[1]) and exc is FileExistsError:
            return
        raise exc("x")

    setattr(cls, op, fails)
    try:
        err = None
        try:
            {"mkdir": lambda: p.mkdir(exist_ok=ok), "makedirs": lambda: p.mkdir(exist_ok=ok, parents=True), "open": p.open,
             "isfile": p.is_file, "isdir": p.is_dir, "size": p.size, "rm": p.unlink, "mv": lambda: p.move(p),
             "glob": lambda: list(p.glob("*"))}[op]()
        except OSError as e:
            err = e
    finally:
        setattr(cls, op, old)
    quiet = ok and exc is FileExistsError and op in ("mkdir", "makedirs")
    ctx.check(err is None if quiet else type(err) is exc, "error", lambda: f"{op}, exist_ok={ok}: {exc.__name__} -> {err!r}")
    ctx.reach("quiet" if quiet else "raised")


class Lines(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def h_config(ctx, n, at):
    """the settings of each remote are those of its section of rclone.conf"""
    keys = ["type", "provider", "access_key_id", "secret_access_key", "region", "endpoint"]
    want = {}
    lines = Lines(["# comment\n"])
    for r in ("one", "two"):
        lines.append(f"[{r}]\n")
        want[r] = {}
        for k in keys:
            want[r][k] = f"{r}{k}" if (r, k) != ("two", at) else text(ctx, "v", n, 33)
            if r == "one" and k == "provider":
                want[r][k] = None
                continue
            lines.append(f"{k} = " + want[r][k] + "\n")
        lines.append("\n")
    import configparser
    mods = [m for m in (configparser, sys.modules.get("vt_configparser")) if m is not None]
    for m in mods:
        m.open = lambda *a, **k: Lines(lines)
    try:
        cfg = read_rclone_config_at_path(Path("/cfg/rclone.conf"))
    finally:
        for m in mods:
            del m.open
    ctx.check(sorted(cfg) == ["one", "two"], "remotes", lambda: f"{sorted(cfg)}")
    for r in want:
        ctx.check(cfg[r].name == r, "name", lambda: f"{cfg[r]}")
        for k in keys:
            got = getattr(cfg[r], k)
            ctx.check(got is None if want[r][k] is None else symstr.is_str(got) and got == want[r][k], "setting",
                      lambda: f"[{r}] {k}: {got!s}, expected {want[r][k]!s}")
    ctx.reach("done")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, reach=("done",), weight=1, seconds=600):
        out.append(dict(name=name, fn=fn, reach=reach, bounds=bounds, weight=weight, seconds=seconds))

    D = 0 if q else 1
    for n in range(1, 8 + D):
        add(f"local {n}", lambda c, n=n: h_local(c, n), f"every string of {n} characters",
            reach=("absolute", "relative") + (("protocol",) if n > 4 else ()), weight=n)
    for n in range(1, 4 + D):
        add(f"working directory {n}", lambda c, n=n: h_absolute(c, n), f"every string of {n} characters")
    for nb, nr in ((0, 4), (1, 3), (2, 3), (3, 2), (3, 4), (1, 5), (0, 7)) + (() if q else ((3, 5), (4, 4), (0, 8), (5, 3))):
        reach = ("joined", "absolute", "above")
        add(f"join {nb}+{nr}", lambda c, a=nb, b=nr: h_join(c, a, b), f"every / + {nb} characters, joined with every {nr}", reach=reach,
            weight=nb + nr)
        add(f"remote join {nb}+{nr}", lambda c, a=nb, b=nr: h_join(c, a, b, True),
            f"every remote path of {nb} more characters, joined with every {nr}", reach=reach, weight=nb + nr)
    add("join paths", lambda c: h_join(c, 2, 3, as_epath=True), "joined with an EPath", reach=("joined", "absolute", "above"))
    for n in range(1, 8 + D):
        add(f"remote {n}", lambda c, n=n: h_remote(c, n), f"rclone:// and every string of {n} characters",
            reach=("remote", "rejected"), weight=n)
    for remote in (False, True):
        r = "remote " if remote else ""
        for na, nb in ((2, 2), (3, 2), (4, 2), (2, 3), (5, 3)):
            add(f"{r}relative {na} {nb}", lambda c, a=na, b=nb, r=remote: h_relative(c, a, b, r),
                f"every two paths of {na} and {nb} more characters", reach=("inside", "outside"), weight=3)
        for na, nb in ((2, 2), (3, 3), (3, 2)):
            add(f"{r}compare {na} {nb}", lambda c, a=na, b=nb, r=remote: h_compare(c, a, b, r),
                f"every two paths of {na} and {nb} more characters out of - . / 0 1 2", reach=("equal", "ordered"), weight=3)
        add(f"{r}move", lambda c, r=remote: h_move(c, 2, 2, r), "every two paths of 2 more characters", reach=("moved",))
        for n, nf in ((2, 2), (1, 3)):
            add(f"{r}glob {n} {nf}", lambda c, a=n, b=nf, r=remote: h_glob(c, a, b, r),
                f"every path of {n} more characters, every file of {nf} below it", reach=("found",))
        add(f"{r}suffix", lambda c, r=remote: h_suffix(c, 3, 2, r), "every name of 3 characters, suffix of 2")
    add("file systems", lambda c: h_systems(c, 2), "every two of a local path and paths of two remotes", reach=("same", "different"))
    add("other types", lambda c: h_other_types(c), "3 paths, 6 other objects")
    for op in ("open", "is_dir", "is_file", "mkdir", "size", "unlink", "glob", "move", "read"):
        add(f"forked {op}", lambda c, op=op: h_forked(c, op), "one path")
    add("errors", h_errors, "every operation and error", reach=("quiet", "raised"))
    for at in ("access_key_id", "secret_access_key", "region", "endpoint"):
        add(f"config {at}", lambda c, at=at: h_config(c, 4, at), f"every {at} of 4 characters")
    add("endpoint", lambda c: h_endpoint(c, 2), "every endpoint of 2 more characters")
    return out
