"""Import hook: loads megatron.energon from /repo's working tree with four builtin calls made
overloadable for symbolic values (`int`, `len`, `isinstance`, `float`).  Nothing else of the code is
changed; the transformation is applied to the source found on every run, nothing is cached."""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import engine

REPO_SRC = os.environ.get("VT_REPO", "/repo") + "/src"

_NAMES = {"int": "__vt_int__", "len": "__vt_len__", "isinstance": "__vt_isinstance__",
          "float": "__vt_float__"}


def vt_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, engine.SymInt):
            return x
        if isinstance(x, engine.SymReal):
            return x.__trunc__()
        if isinstance(x, engine.SymBool):
            return engine.vite(x, 1, 0)
    return int(*a, **k)


def vt_float(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, engine.SymReal):
            return x
        if isinstance(x, engine.SymInt):
            return engine.SymReal(engine._rex(x), 0)
    return float(*a)


def vt_len(x):
    f = getattr(type(x), "__vt_len__", None)
    if f is not None:
        return f(x)
    return len(x)


def vt_isinstance(x, t):
    if isinstance(x, t):
        return True
    if isinstance(x, engine.SymInt):
        return isinstance(0, t)
    if isinstance(x, engine.SymBool):
        return isinstance(True, t)
    if isinstance(x, engine.SymReal):
        return isinstance(0.0, t)
    f = getattr(type(x), "__vt_type__", None)
    return f is not None and issubclass(f, t)


class _T(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _NAMES:
            node.func.id = _NAMES[node.func.id]
        return node


_MODULES = {n: "vt_" + n for n in ("os", "re", "pathlib", "posixpath", "configparser")}


class _S(_T):
    """string mode"""

    def visit_Call(self, node):
        super().visit_Call(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == "str":
            f.id = "__vt_str__"
        elif isinstance(f, ast.Attribute) and not node.keywords:
            if f.attr == "join":
                return ast.Call(ast.Name("__vt_join__", ast.Load()), [f.value] + node.args, [])
            if isinstance(f.value, ast.Name) and (f.value.id, f.attr) == ("sys", "intern"):
                node.func = ast.Name("__vt_intern__", ast.Load())
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v = ast.Tuple([v.value, ast.Constant(v.conversion), v.format_spec or ast.Constant("")], ast.Load())
            parts.append(v)
        return ast.Call(ast.Name("__vt_fstr__", ast.Load()), parts, [])

    def visit_Import(self, node):
        for a in node.names:
            top = a.name.split(".")[0]
            if a.name in _MODULES:
                a.name, a.asname = _MODULES[a.name], a.asname or a.name
            elif top == "os" and a.asname is None:
                a.name, a.asname = "vt_os", "os"
            elif a.name == "os.path":
                a.name = "vt_posixpath"
        return node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in _MODULES:
            node.module = _MODULES[node.module]
        elif node.level == 0 and node.module == "os.path":
            node.module = "vt_posixpath"
        return node


def compile_strings(src, path):
    tree = ast.fix_missing_locations(_S().visit(ast.parse(src, path)))
    return compile(tree, path, "exec", dont_inherit=True)


class _StringLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            return compile_strings(f.read(), path)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        tree = _T().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)


class _PlainLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            return compile(f.read(), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, loader):
        self.loader = loader

    def find_spec(self, name, path=None, target=None):
        if name != "megatron.energon" and not name.startswith("megatron.energon."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO_SRC, *rel)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, f, loader=self.loader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=self.loader(name, f))
        return None


def install(transform: bool, strings=False):
    assert not any(m.startswith("megatron.energon") for m in sys.modules)
    for n, f in (("__vt_int__", vt_int), ("__vt_len__", vt_len),
                 ("__vt_isinstance__", vt_isinstance), ("__vt_float__", vt_float)):
        setattr(builtins, n, f)
    if transform and strings:
        from . import symstr

        for n in ("str", "fstr", "join", "intern"):
            setattr(builtins, f"__vt_{n}__", getattr(symstr, "vt_" + n))
        symstr.install(compile_strings)
    sys.meta_path.insert(0, _Finder(_PlainLoader if not transform else _StringLoader if strings else _Loader))
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)


class FunctionTrace:
    """Records which functions of the repository were executed (sys.monitoring, one hit each)."""

    def __init__(self):
        self.hit = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tool = mon.PROFILER_ID
        mon.use_tool_id(self.tool, "vt")

        def start(code, off):
            if code.co_filename.startswith(REPO_SRC) and code.co_name != "<module>":
                self.hit.add(
                    os.path.relpath(code.co_filename, REPO_SRC + "/megatron/energon")
                    + ":" + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.free_tool_id(self.tool)
