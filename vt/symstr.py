"""Strings of bounded length whose characters are solver variables (printable ASCII).

`SymStr` implements the `str` operations on tuples of code points; a result without symbolic
characters is a real `str`.  In string mode (`STRINGS = True` in a harness) the import hook (shim)
rewrites, in the repository's modules, f-strings, `str(x)`, `x.join(y)`, `sys.intern` and
`os.fspath`, and loads the standard library's `pathlib`, `posixpath` and `configparser` from their own source in the
same way; regular expressions are matched by the small backtracking matcher below (on the parse tree
of the `re` module), which asks the solver about each character."""

import os
import re
import re._constants as K
import re._parser as sre_parse
import sys
import types

from . import engine
from .engine import HarnessError, SymBool, SymInt, vand, vite, vor


def codes(x):
    if isinstance(x, SymStr):
        return x.c
    if isinstance(x, str):
        return tuple(map(ord, x))
    raise TypeError(f"expected str, not {type(x).__name__}")


def mk(c):
    c = tuple(c)
    if all(type(x) is int for x in c):
        return "".join(map(chr, c))
    return SymStr(c)


def is_str(x):
    return isinstance(x, (str, SymStr))


def _eq(a, b):
    """of two tuples of code points"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int and x != y:
            return False
    return vand(*[x == y for x, y in zip(a, b)])


def describing():
    c = engine.cur()
    return c is None or c.concrete or c.describing is not None


class SymStr:
    __vt_type__ = str
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = tuple(c)

    # -- conversions
    def __str__(self):
        if describing():
            return "".join(chr(int(x)) for x in self.c)
        raise HarnessError("a symbolic string was turned into a str")

    def __repr__(self):
        return repr(str(self)) if describing() else f"<string of {len(self.c)}>"

    def __format__(self, spec):
        return format(str(self), spec)

    def __hash__(self):
        if describing():
            return hash(str(self))
        known = engine.cur().decided.setdefault("symstr", [])
        for s in known:
            if _eq(s.c, self.c):
                return id(s)
        known.append(self)
        return id(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise HarnessError("a symbolic string was pickled")

    # -- comparisons
    def __eq__(self, o):
        return _eq(self.c, codes(o)) if is_str(o) else NotImplemented

    def __ne__(self, o):
        return engine.vnot(_eq(self.c, codes(o))) if is_str(o) else NotImplemented

    def _less(self, o, eq):
        if not is_str(o):
            return NotImplemented
        a, b = self.c, codes(o)
        for x, y in zip(a, b):
            if x == y:
                continue
            return bool(x < y)
        return len(a) <= len(b) if eq else len(a) < len(b)

    def __lt__(self, o):
        return self._less(o, False)

    def __le__(self, o):
        return self._less(o, True)

    def __gt__(self, o):
        r = self._less(o, True)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._less(o, False)
        return r if r is NotImplemented else not r

    # -- sequence
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return iter([mk((x,)) for x in self.c])

    def __getitem__(self, i):
        return mk(self.c[i]) if isinstance(i, slice) else mk((self.c[i],))

    def __add__(self, o):
        return mk(self.c + codes(o)) if is_str(o) else NotImplemented

    def __radd__(self, o):
        return mk(codes(o) + self.c) if is_str(o) else NotImplemented

    def __mul__(self, n):
        return mk(self.c * n)

    __rmul__ = __mul__

    def _at(self, i, sub):
        return bool(_eq(self.c[i:i + len(sub)], sub))

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def _range(self, sub, start, end):
        s, e, _ = slice(start, end).indices(len(self.c))
        return range(s, e - len(sub) + 1)

    def find(self, sub, start=None, end=None):
        sub = codes(sub)
        return next((i for i in self._range(sub, start, end) if self._at(i, sub)), -1)

    def rfind(self, sub, start=None, end=None):
        sub = codes(sub)
        return next((i for i in reversed(self._range(sub, start, end)) if self._at(i, sub)), -1)

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub):
        return len(self.split(sub)) - 1

    def startswith(self, p, *a):
        s = self[slice(*a)] if len(a) > 1 else self[a[0]:] if a else self
        if isinstance(p, tuple):
            return any(SymStr.startswith(self, x, *a) for x in p)
        return len(s) >= len(p) and bool(_eq(codes(s)[:len(p)], codes(p)))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        return len(self) >= len(p) and bool(_eq(self.c[len(self) - len(p):], codes(p)))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise HarnessError("split at white space")
        sep = codes(sep)
        out, last, i = [], 0, 0
        while i + len(sep) <= len(self.c) and maxsplit != 0:
            if self._at(i, sep):
                out.append(mk(self.c[last:i]))
                last = i = i + len(sep)
                maxsplit -= 1
            else:
                i += 1
        return out + [mk(self.c[last:])]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise HarnessError("split at white space")
        sep = codes(sep)
        out, last, i = [], len(self.c), len(self.c) - len(sep)
        while i >= 0 and maxsplit != 0:
            if self._at(i, sep):
                out.insert(0, mk(self.c[i + len(sep):last]))
                last = i
                i -= len(sep)
                maxsplit -= 1
            else:
                i -= 1
        return [mk(self.c[:last])] + out

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def replace(self, a, b, n=-1):
        return join(b, self.split(a, n))

    def join(self, xs):
        return join(self, xs)

    def lstrip(self, chars=" \t\n\r\f\v"):
        i = 0
        while i < len(self.c) and vor(*[self.c[i] == x for x in codes(chars)]):
            i += 1
        return self[i:]

    def rstrip(self, chars=" \t\n\r\f\v"):
        i = len(self.c)
        while i and vor(*[self.c[i - 1] == x for x in codes(chars)]):
            i -= 1
        return self[:i]

    def strip(self, chars=" \t\n\r\f\v"):
        return self.lstrip(chars).rstrip(chars)

    def _case(self, lo, hi, d):
        return mk([vite(vand(x >= lo, x <= hi), x + d, x) for x in self.c])

    def lower(self):
        return self._case(65, 90, 32)

    casefold = lower

    def upper(self):
        return self._case(97, 122, -32)

    def isdigit(self):
        return len(self.c) > 0 and bool(vand(*[vand(x >= 48, x <= 57) for x in self.c]))

    isnumeric = isdecimal = isdigit

    def isspace(self):
        return len(self.c) > 0 and all(vor(*[x == y for y in codes(" \t\n\r\f\v")]) for x in self.c)

    def isascii(self):
        return True

    def encode(self, *a):
        raise HarnessError("a symbolic string was encoded")


def join(sep, xs):
    xs = list(xs)
    out = []
    for i, x in enumerate(xs):
        if i:
            out += codes(sep)
        out += codes(x)
    return mk(out)


# ------------------------------------------------------------------ what the import hook rewrites


def vt_str(*a, **k):
    if len(a) == 1 and not k:
        if isinstance(a[0], SymStr):
            return a[0]
        if type(a[0]).__str__ is not object.__str__ and not isinstance(a[0], (BaseException, SymInt, SymBool)):
            r = type(a[0]).__str__(a[0])
            if isinstance(r, SymStr):
                return r
    return str(*a, **k)


def vt_fspath(x):
    if is_str(x):
        return x
    f = getattr(type(x), "__fspath__", None)
    return f(x) if f is not None else os.fspath(x)


def vt_intern(x):
    return x if isinstance(x, SymStr) else sys.intern(x)


def vt_join(*a):
    if len(a) == 2 and is_str(a[0]):
        xs = list(a[1])
        if isinstance(a[0], SymStr) or any(isinstance(x, SymStr) for x in xs):
            return join(a[0], xs)
        return a[0].join(xs)
    return a[0].join(*a[1:])


def vt_fstr(*parts):
    """parts: str, or (value, conversion, format spec)"""
    out = []
    for p in parts:
        if not isinstance(p, tuple):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = repr(v)
        elif conv == 97:
            v = ascii(v)
        elif conv == 115 or (spec == "" and not isinstance(v, (int, float, SymInt))):
            v = vt_str(v)
        out.append(v if isinstance(v, SymStr) and spec == "" else format(v, spec))
    if any(isinstance(x, SymStr) for x in out):
        return join("", out)
    return "".join(out)


# ------------------------------------------------------------------ regular expressions


class Match:
    def __init__(self, pat, s, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = pat, s, start, end, groups

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return (self._s, self._e) if g == 0 else self._g.get(g)

    def group(self, *gs):
        def one(g):
            s = self._span(g)
            return None if s is None else self.string[s[0]:s[1]]
        return one(gs[0] if gs else 0) if len(gs) < 2 else tuple(map(one, gs))

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._span(i) is None else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: default if self._span(i) is None else self.group(i) for k, i in self.re.groupindex.items()}

    def start(self, g=0):
        s = self._span(g)
        return -1 if s is None else s[0]

    def end(self, g=0):
        s = self._span(g)
        return -1 if s is None else s[1]

    def span(self, g=0):
        return self.start(g), self.end(g)


def _category(c, cat):
    digit = vand(c >= 48, c <= 57)
    word = vor(digit, vand(c >= 65, c <= 90), vand(c >= 97, c <= 122), c == 95)
    space = vor(c == 32, vand(c >= 9, c <= 13))
    return {K.CATEGORY_DIGIT: digit, K.CATEGORY_NOT_DIGIT: engine.vnot(digit), K.CATEGORY_WORD: word,
            K.CATEGORY_NOT_WORD: engine.vnot(word), K.CATEGORY_SPACE: space, K.CATEGORY_NOT_SPACE: engine.vnot(space)}[cat]


class Pattern:
    """a compiled pattern"""

    def __init__(self, real):
        self.real = real
        self.tree = None

    def __getattr__(self, n):
        return getattr(self.real, n)

    def _one(self, op, av, c):
        if op is K.LITERAL:
            return c == av
        if op is K.NOT_LITERAL:
            return engine.vnot(c == av)
        if op is K.ANY:
            return True if self.real.flags & re.S else engine.vnot(c == 10)
        if op is K.IN:
            neg = av[0][0] is K.NEGATE
            r = vor(*[vand(c >= a[0], c <= a[1]) if o is K.RANGE else _category(c, a) if o is K.CATEGORY else self._one(o, a, c)
                      for o, a in av[1 if neg else 0:]])
            return engine.vnot(r) if neg else r
        raise HarnessError(f"regular expression: {op}")

    def _m(self, items, i, s, g):
        """ends and groups of all matches of `items` at i, in the order of the re module"""
        if not items:
            yield i, g
            return
        (op, av), rest = items[0], items[1:]
        if op is K.AT:
            n = len(s)
            last = n > 0 and i == n - 1 and not self.real.flags & re.M
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is K.AT_END_STRING:
                ok = i == n
            elif av is K.AT_END:
                ok = i == n or (last and bool(s[i] == 10))
            else:
                raise HarnessError(f"regular expression: {av}")
            if ok:
                yield from self._m(rest, i, s, g)
        elif op is K.SUBPATTERN:
            n, add, rem, sub = av
            if add or rem:
                raise HarnessError("regular expression flags")
            for j, g2 in self._m(list(sub), i, s, g):
                yield from self._m(rest, j, s, g2 if n is None else {**g2, n: (i, j)})
        elif op is K.BRANCH:
            for b in av[1]:
                yield from self._m(list(b) + rest, i, s, g)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            yield from self._rep(list(sub), lo, hi, op is K.MAX_REPEAT, rest, i, s, g)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            if av[0] != 1:
                raise HarnessError("regular expression: look behind")
            found = next(self._m(list(av[1]), i, s, g), None)
            if (found is not None) == (op is K.ASSERT):
                yield from self._m(rest, i, s, found[1] if op is K.ASSERT else g)
        elif i < len(s) and bool(self._one(op, av, s[i])):
            yield from self._m(rest, i + 1, s, g)

    def _rep(self, sub, lo, hi, greedy, rest, i, s, g):
        if not greedy and lo <= 0:
            yield from self._m(rest, i, s, g)
        if hi is K.MAXREPEAT or hi > 0:
            for j, g2 in self._m(sub, i, s, g):
                if j == i and lo <= 0:
                    continue
                yield from self._rep(sub, lo - 1, hi if hi is K.MAXREPEAT else hi - 1, greedy, rest, j, s, g2)
        if greedy and lo <= 0:
            yield from self._m(rest, i, s, g)

    def _run(self, s, starts, full):
        if self.real.flags & re.I:
            raise HarnessError("regular expression flags")
        if self.tree is None:
            self.tree = list(sre_parse.parse(self.real.pattern, self.real.flags))
        for i in starts:
            for j, g in self._m(self.tree, i, s.c, {}):
                if not full or j == len(s):
                    return Match(self.real, s, i, j, g)
        return None

    def match(self, s, *a):
        return self._run(s, [0], False) if isinstance(s, SymStr) else self.real.match(s, *a)

    def fullmatch(self, s, *a):
        return self._run(s, [0], True) if isinstance(s, SymStr) else self.real.fullmatch(s, *a)

    def search(self, s, *a):
        return self._run(s, range(len(s) + 1), False) if isinstance(s, SymStr) else self.real.search(s, *a)

    def _all(self, s):
        i = 0
        while i <= len(s):
            m = self._run(s, range(i, len(s) + 1), False)
            if m is None:
                return
            yield m
            i = m.end() + (m.end() == m.start())

    def finditer(self, s, *a):
        return self._all(s) if isinstance(s, SymStr) else self.real.finditer(s, *a)

    def findall(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.findall(s, *a)
        return [m.group() if m.re.groups == 0 else m.group(1) if m.re.groups == 1 else m.groups() for m in self._all(s)]

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.real.split(s, maxsplit)
        out, last = [], 0
        for m in self._all(s):
            out += [s[last:m.start()], *m.groups()]
            last = m.end()
        return out + [s[last:]]

    def sub(self, r, s, count=0):
        if not isinstance(s, SymStr):
            return self.real.sub(r, s, count)
        if isinstance(r, str) and "\\" in r:
            raise HarnessError("regular expression template")
        out, last = [], 0
        for m in self._all(s):
            out += [s[last:m.start()], r(m) if callable(r) else r]
            last = m.end()
        return join("", out + [s[last:]])


def module_re():
    m = types.ModuleType("vt_re")
    m.__dict__.update({k: v for k, v in vars(re).items() if not k.startswith("__")})

    def compile(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(re.compile(p, flags))

    m.compile = compile
    for n in ("match", "fullmatch", "search", "finditer", "findall"):
        setattr(m, n, lambda p, s, flags=0, n=n: getattr(compile(p, flags), n)(s))
    m.split = lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    return m


def install(compile_source):
    """`compile_source(source, file)` -> code object with the rewritings; registers the vt_* modules"""
    import configparser
    import pathlib
    import posixpath

    sys.modules["vt_re"] = module_re()
    osm = types.ModuleType("vt_os")
    osm.__dict__.update({k: v for k, v in vars(os).items() if not k.startswith("__")})
    osm.fspath = vt_fspath
    sys.modules["vt_os"] = osm
    for real in (posixpath, pathlib, configparser):
        m = types.ModuleType("vt_" + real.__name__)
        m.__file__ = real.__file__
        sys.modules[m.__name__] = m
        with open(real.__file__) as f:
            src = f.read()
        if real is posixpath:
            src = src.replace("from posix import _path_normpath", "raise ImportError")  # its own Python version
        exec(compile_source(src, real.__file__), m.__dict__)
        if real is posixpath:
            osm.path = m


# ------------------------------------------------------------------ for harnesses


def text(ctx, name, n, lo=33, hi=126, not_=""):
    """a string of n characters"""
    c = [ctx.int(f"{name}.{i}", lo, hi) for i in range(n)]
    for x in c:
        for y in codes(not_):
            ctx.assume(engine.vnot(x == y))
    return mk(c)
