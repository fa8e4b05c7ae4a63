"""Loads /repo's package with its AST instrumented so that it runs on symbolic values.

Nothing is rewritten by hand: the sources are read from the tree on every run, every call, `in`
test, f-string, dict/set display and subscript is routed through the helpers below, and the result
is compiled and imported under its own name (in a private sys.modules overlay, next to the real,
untouched package used for replays).
"""
from __future__ import annotations

import ast
import builtins
import collections
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import os
import pathlib
import re
import shutil
import sys
import tempfile
import types

from . import core, symre, vfs
from .containers import SDefaultDict, SDict, SFrozenSet, SSet, SHash, key_eq, shash
from .core import Abort, PathCut, Proxy, SymBool, SymInt, eng
from .symstr import SymStr, cat, chars_of, fmt_value, has_sym, lift, plain, to_repr, to_str

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "lazy_type_hint"


# ------------------------------------------------------------------ AST rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    @staticmethod
    def h(name):
        return ast.Attribute(ast.Name("__symx__", ast.Load()), name, ast.Load())

    def _call(self, name, args, keywords=()):
        return ast.Call(self.h(name), list(args), list(keywords))

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()
        return n

    # annotations are left alone
    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def _func(self, n):
        n.args = self.visit(n.args)
        n.body = [self.visit(x) for x in n.body]
        n.body = [y for x in n.body for y in (x if isinstance(x, list) else [x])]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "vars", "globals", "eval", "exec", "dir") and not n.args:
            return self.generic_visit(n)
        args = [self.visit(a) for a in n.args]
        kws = [self.visit(k) for k in n.keywords]
        if isinstance(f, ast.Attribute):
            attr = f.attr
            if self.cls and attr.startswith("__") and not attr.endswith("__"):
                attr = f"_{self.cls[-1].lstrip('_')}{attr}"
            return ast.copy_location(self._call("mcall", [self.visit(f.value), ast.Constant(attr), *args], kws), n)
        return ast.copy_location(self._call("call", [self.visit(f), *args], kws), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(
                    ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load())
                )
        return ast.copy_location(self._call("fstr", parts), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            name = "contains" if isinstance(n.ops[0], ast.In) else "not_contains"
            return ast.copy_location(self._call(name, [n.left, n.comparators[0]]), n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            e = self._call("is_", [n.left, n.comparators[0]])
            return ast.copy_location(e if isinstance(n.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), e), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self._call("mod", [n.left, n.right]), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        items = []
        for k, v in zip(n.keys, n.values):
            items.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return ast.copy_location(self._call("mkdict", items), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._call("mkset", [ast.List(n.elts, ast.Load())]), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return ast.copy_location(self._call("mkdict_pairs", [g]), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._call("mkset", [ast.ListComp(n.elt, n.generators)]), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return ast.copy_location(self._call("getitem", [n.value, n.slice]), n)
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.handlers:
            h = ast.ExceptHandler(self.h("Abort"), None, [ast.Raise(None, None)])
            n.handlers.insert(0, h)
        return n


# ------------------------------------------------------------------ run-time helpers
def _is_instr(f):
    g = getattr(f, "__globals__", None)
    return g is not None and "__symx__" in g


def _resolve(x):
    while isinstance(x, Proxy) and hasattr(type(x), "_resolve"):
        x = x._resolve()
    return x


def sym_type(x):
    if isinstance(x, Proxy) or hasattr(type(x), "_symx_set") or hasattr(type(x), "_symx_dict"):
        return x.__class__
    return type(x)


def sym_hash(x):
    return shash(x)


def sym_isinstance(x, c):
    # ABCs look at the proxy's own type first: ask about a native value of the same class instead
    if isinstance(x, Proxy):
        if type(x).__name__ == "EnumStr":
            return isinstance("", c)
        x = _resolve(x)
    if type(x) is SymStr:
        return isinstance("", c)
    if type(x) is core.SymInt:
        return isinstance(0, c)
    if type(x) is core.SymBool:
        return isinstance(False, c)
    return isinstance(x, c)


def sym_str(*a, **k):
    if not a:
        return ""
    if len(a) > 1 or k:
        return str(*[plain(x) for x in a], **k)
    x = a[0]
    if type(x) is vfs.VPath:
        return x._s
    return to_str(x)


def sym_int(*a):
    if a and type(a[0]) is SymInt and len(a) == 1:
        return a[0]
    return int(*[plain(x) for x in a])


def sym_len(x):
    return len(x)


def sym_bool(x=False):
    return bool(x)


def sym_ord(c):
    if type(c) is SymStr:
        return ord(c.pinned())
    return ord(c)


def sym_getattr(o, name, *d):
    if type(name) is SymStr:
        name = name.pinned()
    return getattr(o, name, *d)


def sym_setattr(o, name, val):
    setattr(o, name.pinned() if type(name) is SymStr else name, val)


def sym_hasattr(o, name):
    return hasattr(o, name.pinned() if type(name) is SymStr else name)


def sym_open(p, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
    if core.ENG is None:
        return open(p, mode, buffering, encoding, errors, newline, **k)
    return vfs.VFile(vfs.v(p)._s, mode, encoding, errors, newline)


def sym_print(*a, sep=" ", end="\n", file=None, flush=False):
    if isinstance(file, vfs.VFile):
        sep, end = " " if sep is None else sep, "\n" if end is None else end
        parts = []
        for x in a:
            parts += [sep, to_str(x)] if parts else [to_str(x)]
        file.write(cat(*parts, end))


def sym_id(x):
    while hasattr(type(x), "_resolve"):
        x = x._resolve()
    return id(x)


def sym_format(v, spec=""):
    return fmt_value(v, None, spec)


def sym_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _conv_factory(f):
    return _FACT.get(f, f) if isinstance(f, type) or callable(f) and getattr(f, "__hash__", None) else f


_FACT = {set: SSet, dict: SDict, frozenset: SFrozenSet}
_FUNARG = {
    str: sym_str, repr: to_repr, hash: sym_hash, type: sym_type, set: SSet, dict: SDict,
    frozenset: SFrozenSet, int: sym_int, len: len, bool: bool,
}


def _funarg(f):
    try:
        return _FUNARG.get(f, f)
    except TypeError:
        return f


def _hof(f):
    def run(*a, **k):
        a = [_funarg(x) if callable(x) and not isinstance(x, Proxy) else x for x in a]
        if "key" in k:
            k["key"] = _funarg(k["key"])
        return f(*a, **k)

    return run


class _StrUnbound:
    """Callbacks such as `map(str.upper, xs)`."""


def sym_map(f, *its):
    f = _funarg(f)
    return map(lambda *a: call(f, *a), *its)


def sym_filter(f, it):
    if f is None:
        return filter(None, it)
    f = _funarg(f)
    return filter(lambda a: call(f, a), it)


def _key(f):
    def run(*a, **k):
        if k.get("key") is not None:
            kf = _funarg(k["key"])
            k["key"] = lambda x: call(kf, x)
        return f(*a, **k)

    return run


def sym_field(*a, **k):
    if "default_factory" in k:
        k["default_factory"] = _FACT.get(k["default_factory"], k["default_factory"])
    import dataclasses

    return dataclasses.field(*a, **k)


def sym_defaultdict(factory=None, *a, **k):
    return SDefaultDict(_FACT.get(factory, factory), *a, **k)


def _re(name):
    native = getattr(re, name)

    def run(pattern, *a, **k):
        if has_sym(pattern, 0) or any(has_sym(x, 1) for x in a) or any(has_sym(x, 1) for x in k.values()):
            flags = k.pop("flags", 0)
            argn = {"sub": 2, "subn": 2, "split": 1}.get(name, 1)
            a = list(a)
            extra = {}
            if name in ("sub", "subn", "split"):
                # positional: sub(pattern, repl, string, count, flags); split(pattern, string, maxsplit, flags)
                if len(a) > argn + 1:
                    flags = a.pop()
            elif len(a) > 1:
                flags = a.pop()
            return getattr(symre.Pattern(pattern, flags), name)(*a, **k)
        return native(pattern, *a, **k)

    return run


def sym_re_compile(pattern, flags=0):
    if type(pattern) is SymStr:
        return symre.Pattern(pattern, flags)
    return re.compile(pattern, flags)


def sym_re_escape(s):
    if type(s) is not SymStr:
        return re.escape(s)
    out = []
    special = set("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")
    from .symstr import char_in

    for c in s._c:
        if eng().branch(char_in(c, special)):
            out.append("\\")
        out.append(c)
    return SymStr(out)


def sym_path(*a):
    if core.ENG is None:
        return pathlib.Path(*a)
    return vfs.VPath(*a) if a else vfs.VPath(".")


def _os(fn):
    def run(p, *a, **k):
        return fn(vfs.v(p)._s, *a, **k)

    return run


def _noreal(name):
    def run(*a, **k):
        raise PathCut()

    return run


def _tmp():
    return "/tmp"


_TABLE = {
    type: None,
    str: sym_str,
    repr: to_repr,
    isinstance: sym_isinstance,
    ascii: lambda x: ascii(plain(x)),
    hash: sym_hash,
    id: sym_id,
    int: sym_int,
    ord: sym_ord,
    format: sym_format,
    print: sym_print,
    sum: sym_sum,
    set: SSet,
    frozenset: SFrozenSet,
    dict: SDict,
    collections.defaultdict: sym_defaultdict,
    collections.OrderedDict: SDict,
    map: sym_map,
    filter: sym_filter,
    sorted: _key(sorted),
    min: _key(min),
    max: _key(max),
    getattr: sym_getattr,
    setattr: sym_setattr,
    hasattr: sym_hasattr,
    open: sym_open,
    re.match: _re("match"),
    re.search: _re("search"),
    re.fullmatch: _re("fullmatch"),
    re.findall: _re("findall"),
    re.finditer: _re("finditer"),
    re.sub: _re("sub"),
    re.subn: _re("subn"),
    re.split: _re("split"),
    re.compile: sym_re_compile,
    re.escape: sym_re_escape,
    pathlib.Path: sym_path,
    pathlib.PosixPath: sym_path,
    pathlib.PurePath: sym_path,
    tempfile.gettempdir: _tmp,
    os.makedirs: lambda p, mode=0o777, exist_ok=False: vfs._fs().mkdir(vfs.v(p)._s, True, exist_ok),
    os.mkdir: lambda p, mode=0o777: vfs._fs().mkdir(vfs.v(p)._s),
    os.remove: _os(lambda s: vfs._fs().unlink(s)),
    os.unlink: _os(lambda s: vfs._fs().unlink(s)),
    os.listdir: _os(lambda s: vfs._fs().listdir(s)),
    os.path.exists: _os(lambda s: vfs._fs().exists(s)),
    os.path.isfile: _os(lambda s: s in vfs._fs().files),
    os.path.isdir: _os(lambda s: vfs._fs().isdir(s)),
    os.path.dirname: _os(lambda s: vfs.parent_of(s)),
    os.path.basename: _os(lambda s: s[s.rfind("/") + 1 :]),
    os.path.join: lambda *a: vfs.VPath(*a)._s,
    os.fspath: lambda p: p if isinstance(p, (str, bytes)) else vfs.v(p)._s,
    os.path.splitext: _os(lambda s: _splitext(s)),
    os.path.split: _os(lambda s: (s[: s.rfind("/")] if s.rfind("/") > 0 else "/" if s.startswith("/") else "", s[s.rfind("/") + 1 :])),
    os.path.abspath: _os(lambda s: s if s.startswith("/") else cat("/cwd/", s)),
    os.path.isabs: _os(lambda s: bool(s.startswith("/"))),
    os.path.expanduser: lambda p: vfs.home(vfs.v(p)._s) if type(p) is vfs.VPath or isinstance(p, str) else os.path.expanduser(p),
    os.path.getsize: _os(lambda s: vfs._fs().stat(s).st_size),
    os.stat: _os(lambda s, **k: vfs._fs().stat(s)),
    os.path.lexists: _os(lambda s: vfs._fs().exists(s)),
    os.replace: lambda a, b: vfs.v(a).replace(b) and None,
    os.rename: lambda a, b: vfs.v(a).replace(b) and None,
    shutil.move: lambda a, b: vfs.v(a).replace(b)._s,
    shutil.copyfile: lambda a, b, **k: _copy_file(a, b),
    shutil.copy: lambda a, b, **k: _copy_file(a, b),
    shutil.rmtree: lambda p, ignore_errors=False, onerror=None: _rmtree(p, ignore_errors),
    os.rmdir: _os(lambda s: vfs._fs().rmtree(s)),
    os.system: _noreal("system"),
    functools.reduce: lambda f, *a: functools.reduce(lambda x, y: call(_funarg(f), x, y), *a),
}
del _TABLE[type]

import dataclasses as _dc  # noqa: E402
import subprocess as _sp  # noqa: E402

import unicodedata as _ud  # noqa: E402

from .symstr import char_pred, conj  # noqa: E402


def sym_normalize(form, s):
    """Exact: a string of characters that are their own normal form (and none combining) is its own; others are split off."""
    if type(s) is not SymStr:
        return _ud.normalize(plain(form), s)
    form = plain(form)
    t = [
        char_pred(c, "norm" + form, lambda ch: _ud.normalize(form, ch) == ch and not _ud.combining(ch))
        for c in s._c
    ]
    if core.eng().branch(conj(t)):
        return s
    return _ud.normalize(form, s.pinned())


_TABLE[_ud.normalize] = sym_normalize
_TABLE[_dc.field] = sym_field
_TABLE[_sp.run] = _noreal("run")

from . import funcs as _funcs  # noqa: E402

_TABLE.update(_funcs.table())


def _splitext(s):
    n = len(vfs.VPath(s).suffix) if s else 0
    if not n and s and s.endswith(".") and len(s[s.rfind("/") + 1 :].lstrip(".")):
        n = 1
    return s[: len(s) - n], s[len(s) - n :]


def _copy_file(a, b):
    vfs._fs().write(vfs.v(b)._s, vfs._fs().read(vfs.v(a)._s))
    return b


def _rmtree(p, ignore_errors):
    try:
        vfs._fs().rmtree(vfs.v(p)._s)
    except FileNotFoundError:
        if not ignore_errors:
            raise


_SAFE = {
    isinstance, issubclass, len, enumerate, zip, iter, next, list, tuple, reversed, any, all, bool, callable,
    range, itertools.islice, itertools.chain, itertools.zip_longest, itertools.count, itertools.product,
    itertools.takewhile, itertools.dropwhile, itertools.starmap, itertools.repeat, itertools.accumulate,
    itertools.permutations, itertools.combinations, itertools.tee, itertools.groupby, itertools.filterfalse,
    itertools.chain.from_iterable, super, property, staticmethod, classmethod, object, slice, abs, divmod, round,
    types.MappingProxyType, types.SimpleNamespace, collections.deque, functools.partial, delattr,
}
try:
    _SAFE |= {itertools.pairwise}
except AttributeError:
    pass
import typing as _ty  # noqa: E402

_SAFE |= {_ty.cast, _ty.get_type_hints, _ty.get_args, _ty.get_origin}
import contextlib as _cl  # noqa: E402
import copy as _copy  # noqa: E402
import operator as _op  # noqa: E402

_SAFE |= {_cl.suppress, _copy.copy, _copy.deepcopy, _op.itemgetter, _op.attrgetter, _op.eq, _op.ne, _op.not_, _op.is_not}
_SAFE |= {
    _op.and_, _op.or_, _op.xor, _op.add, _op.sub, _op.mul, _op.floordiv, _op.truediv, _op.neg, _op.lt, _op.le, _op.gt, _op.ge,
    _op.concat, _op.iadd, _op.iand, _op.ior, _op.isub, _op.ixor, _op.iconcat, _op.truth, _op.setitem, _op.delitem, _op.index,
}
_SAFE |= {_dc.dataclass, _dc.fields, _dc.replace, _dc.asdict, _dc.astuple, _dc.is_dataclass}
_SAFE_SELF = (list, collections.deque, tuple)


def _hashable(f):
    try:
        hash(f)
        return True
    except Exception:
        return False


def call(f, /, *a, **k):
    if f is type:
        if len(a) == 1:
            return sym_type(a[0])
        return type(*a, **k)
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        if _is_instr(f) or (tf is types.MethodType and (_is_instr(f.__func__) or isinstance(f.__self__, (Proxy, vfs.VFile)))):
            return f(*a, **k)
        h = _TABLE.get(f) if tf is types.FunctionType else None
        if h is not None:
            return h(*a, **k)
        if f in _SAFE or not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            return f(*a, **k)
        return _foreign(f, a, k)
    if isinstance(f, Proxy):
        return f(*a, **k)
    if _hashable(f):
        h = _TABLE.get(f)
        if h is not None:
            return h(*a, **k)
        if f in _SAFE:
            return f(*a, **k)
    if tf is types.MethodDescriptorType and a:
        o = f.__objclass__
        if o is str and isinstance(a[0], str) or isinstance(a[0], (SDict, SSet, SFrozenSet)) and isinstance(a[0], o):
            return mcall(a[0], f.__name__, *a[1:], **k)
        if o in (list, dict) and type(a[0]) is o:
            return mcall(a[0], f.__name__, *a[1:], **k)
    if isinstance(f, type):
        mod = sys.modules.get(f.__module__)
        if mod is not None and "__symx__" in getattr(mod, "__dict__", {}):
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        if issubclass(f, (str, bytes)):
            return _foreign(f, a, k)
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        if isinstance(s, Proxy) or isinstance(s, (SDict, SSet, SFrozenSet)) or type(s) in _SAFE_SELF:
            return f(*a, **k)
        n = getattr(f, "__name__", None)
        if type(s) in (frozenset, set) and n == "__contains__" and any(has_sym(x, 2) for x in a):
            return any(key_eq(x, a[0]) for x in sorted(s, key=repr))
        if type(s) in (str, dict) and n and any(has_sym(x) for x in a):
            return mcall(s, n, *a, **k)
    if not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
        return f(*a, **k)
    return _foreign(f, a, k)


def _foreign(f, a, k):
    """Unmodelled callable: enumerate the arguments' values (sound, counted)."""
    g = core.ENG
    if g is not None:
        g.notes.add(f"concretised call: {getattr(f, '__module__', '?')}.{getattr(f, '__qualname__', repr(f))}")
    return f(*[plain(x) for x in a], **{n: plain(x) for n, x in k.items()})


_PATH_IO = {
    "exists", "is_file", "is_dir", "read_text", "write_text", "read_bytes", "write_bytes", "rename", "replace", "mkdir", "unlink", "touch", "rmdir", "iterdir", "glob",
    "open", "joinpath",
}


def mcall(o, name, /, *a, **k):
    t = type(o)
    if t is str:
        if any(has_sym(x, 2) for x in a) or (k and any(has_sym(x, 2) for x in k.values())):
            return getattr(lift(o), name)(*a, **k)
        if name == "join" and a:
            items = list(a[0])
            if any(has_sym(x, 0) for x in items):
                return lift(o).join(items)
            return o.join(items)
        if name == "format":
            from .symstr import str_format

            return str_format(o, a, k)
        return getattr(o, name)(*a, **k)
    if t is SymStr:
        return getattr(o, name)(*a, **k)
    if isinstance(o, Proxy):
        return call(getattr(o, name), *a, **k)
    if t is types.ModuleType:
        return call(getattr(o, name), *a, **k)
    if t is type or isinstance(o, type):
        if o in (set, frozenset):
            if name.startswith("_") or not a:
                return getattr(o, name)(*a, **k)
            c = SSet if o is set else SFrozenSet
            first = a[0] if isinstance(a[0], (SSet, SFrozenSet)) else c(a[0])
            return getattr(first, name)(*a[1:], **k)
        if o is dict:
            if name == "fromkeys":
                return SDict.fromkeys(*a)
            return getattr(a[0] if isinstance(a[0], SDict) else SDict(a[0]), name)(*a[1:], **k)
        if o is str and a and name != "maketrans" and (type(a[0]) in (str, SymStr)):
            return mcall(a[0], name, *a[1:], **k)
        if issubclass(o, pathlib.PurePath) and name in ("cwd", "home"):
            return vfs.VPath("/cwd")
        return call(getattr(o, name), *a, **k)
    if t is re.Pattern:
        if any(has_sym(x, 1) for x in a):
            return getattr(symre.Pattern(o), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, pathlib.PurePath):
        if core.ENG is not None and (name in _PATH_IO or any(has_sym(x) for x in a)):
            return getattr(vfs.VPath(str(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is dict and a and has_sym(a[0], 2) and name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
        key = a[0]
        for kk in o:
            if key_eq(kk, key):
                return getattr(o, name)(kk, *a[1:])
        if name == "get":
            return a[1] if len(a) > 1 else None
        if name == "pop" and len(a) > 1:
            return a[1]
        if name == "__contains__":
            return False
        if name == "setdefault":
            return o.setdefault(plain(key), *a[1:])
        raise KeyError(key)
    if t in (list, SDict, SDefaultDict, SSet, SFrozenSet):
        if name == "sort" and k.get("key") is not None:
            kf = _funarg(k["key"])
            k["key"] = lambda x: call(kf, x)
        return getattr(o, name)(*a, **k)
    f = getattr(o, name)
    return call(f, *a, **k)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            out.append(fmt_value(p[0], None if p[1] == -1 else p[1], p[2]))
        else:
            out.append(p)
    return cat(*out)


def contains(item, box):
    tb = type(box)
    f = getattr(type(item), "_symx_in", None)
    if f is not None and tb in (tuple, list):
        return f(item, box)
    if tb is str:
        if type(item) is SymStr:
            return lift(box).find(item) >= 0
        return _resolve(item) in box
    if tb is SymStr:
        return box.find(item) >= 0
    if tb in (dict, set, frozenset, types.MappingProxyType) or isinstance(box, (type({}.keys()),)) and not isinstance(box, Proxy):
        if isinstance(box, (SDict, SSet, SFrozenSet)) or tb is types.MappingProxyType:
            if tb is types.MappingProxyType:
                return any(key_eq(x, item) for x in box)
            return item in box
        if has_sym(item, 2):
            return any(key_eq(x, item) for x in box)
    return item in box


def is_(a, b):
    a, b = _resolve(a), _resolve(b)
    if type(a) is SymBool and type(b) in (bool, SymBool):
        return bool(a) is bool(b)
    if type(b) is SymBool and type(a) is bool:
        return a is bool(b)
    return a is b


def not_contains(item, box):
    return not contains(item, box)


def mod(a, b):
    if type(a) in (str, SymStr) and (type(a) is SymStr or has_sym(b, 2)):
        s = plain(a)
        args = b if type(b) is tuple else (b,)
        if re.fullmatch(r"(?:[^%]|%%|%s|%r|%d)*", s, re.S) and not isinstance(b, dict):
            out, i, it = [], 0, iter(args)
            for m in re.finditer(r"%[%srd]", s):
                out.append(s[i : m.start()])
                c = m.group()[1]
                out.append("%" if c == "%" else to_repr(next(it)) if c == "r" else to_str(next(it)))
                i = m.end()
            out.append(s[i:])
            return cat(*out)
        return s % plain(b)
    return a % b


def mkdict(*items):
    d = SDict()
    for it in items:
        if len(it) == 2:
            d[it[0]] = it[1]
        else:
            d.update(it[0])
    return d


def mkdict_pairs(pairs):
    d = SDict()
    for k, v in pairs:
        d[k] = v
    return d


def mkset(items):
    return SSet(items)


def getitem(o, k):
    t = type(o)
    if t is list or t is str or t is tuple or t is SymStr:
        return o[k]
    if t is dict and has_sym(k, 2):
        for kk in o:
            if key_eq(kk, k):
                return o[kk]
        raise KeyError(k)
    return o[k]


def sym_maketrans(*a):
    if len(a) == 1 and isinstance(a[0], dict):
        return {(ord(plain(k)) if isinstance(k, str) else plain(k)): v for k, v in a[0].items()}
    return str.maketrans(*[plain(x) for x in a])


_TABLE.update({
    str.maketrans: sym_maketrans,
    _op.contains: lambda box, item: contains(item, box),
    _op.is_: lambda a, b: is_(a, b),
    _op.mod: lambda a, b: mod(a, b),
    _op.getitem: lambda o, k: getitem(o, k),
    _op.methodcaller: lambda name, *a, **k: (lambda o: mcall(o, name, *a, **k)),
})


class _NS:
    pass


HELPERS = _NS()
for _n in ("call", "mcall", "fstr", "contains", "not_contains", "is_", "mod", "mkdict", "mkdict_pairs", "mkset", "getitem"):
    setattr(HELPERS, _n, globals()[_n])
HELPERS.Abort = Abort


# ------------------------------------------------------------------ which functions were encoded
SYM_TAG = "#sym"
_COVERED: set = set()
_MON = False


def covered():
    """Package functions executed symbolically so far in this process."""
    return set(_COVERED)


def _monitor():
    global _MON
    if _MON:
        return
    _MON = True
    try:
        m = sys.monitoring
        m.use_tool_id(4, "symx")

        def start(code, off):
            fn = code.co_filename
            if fn.endswith(SYM_TAG):
                rel = fn[: -len(SYM_TAG)].split(PKG + "/", 1)[-1]
                if not code.co_qualname.startswith("<module>"):
                    _COVERED.add(f"{rel}:{code.co_qualname}")
            return m.DISABLE

        m.register_callback(4, m.events.PY_START, start)
        m.set_events(4, m.events.PY_START)
    except Exception:  # noqa: BLE001
        pass


# ------------------------------------------------------------------ loading
class Realm:
    """One private copy of the package: instrumented (symbolic) or untouched (real)."""

    def __init__(self, symbolic, root=None, file_root=None):
        """`file_root`: where the modules are made to believe they lie."""
        self.symbolic = symbolic
        self.file_root = file_root and pathlib.Path(file_root)
        if symbolic:
            _monitor()
        self.root = pathlib.Path(root or REPO) / PKG
        self.code = {}
        self.paths = {}
        self._cur = None
        self.reimports = 0
        for p in sorted(self.root.rglob("*.py")):
            rel = p.relative_to(self.root.parent).with_suffix("")
            parts = list(rel.parts)
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            name = ".".join(parts)
            if "build" in parts or parts[-1].startswith("test_"):
                continue
            self.paths[name] = (p, is_pkg)

    def compile(self, name):
        c = self.code.get(name)
        if c is None:
            p, _ = self.paths[name]
            src = p.read_text(encoding="utf-8")
            if self.symbolic:
                tree = ast.parse(src, str(p))
                tree = Rewriter().visit(tree)
                ast.fix_missing_locations(tree)
                c = compile(tree, str(p) + SYM_TAG, "exec", dont_inherit=True)
            else:
                c = compile(src, str(p), "exec", dont_inherit=True)
            self.code[name] = c
        return c

    # a meta-path finder/loader pair over the snapshot of sources
    def find_spec(self, name, path=None, target=None):
        if name in self.paths:
            p, is_pkg = self.paths[name]
            spec = importlib.machinery.ModuleSpec(name, self, origin=str(p), is_package=is_pkg)
            spec.has_location = True
            if is_pkg:
                spec.submodule_search_locations = [str(p.parent)]
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = self.paths[module.__name__][0]
        module.__file__ = str(self.file_root / p.relative_to(self.root.parent) if self.file_root else p)
        if self.symbolic:
            module.__dict__["__symx__"] = HELPERS
        exec(self.compile(module.__name__), module.__dict__)

    def current(self):
        """A copy whose module-level state is as freshly imported (re-imported when a run changed it)."""
        if self._cur is not None and self._cur.state() == self._cur_state:
            return self._cur
        if self._cur is not None:
            self.reimports += 1
        self._cur = self.fresh()
        self._cur_state = self._cur.state()
        return self._cur

    def fresh(self):
        """Import a brand-new copy (module-level state included) and return its namespace."""
        saved = {n: m for n, m in sys.modules.items() if n == PKG or n.startswith(PKG + ".")}
        for n in saved:
            del sys.modules[n]
        sys.meta_path.insert(0, self)
        try:
            importlib.import_module(PKG)
            mods = {n: m for n, m in sys.modules.items() if n == PKG or n.startswith(PKG + ".")}
        finally:
            sys.meta_path.remove(self)
            for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
                del sys.modules[n]
            sys.modules.update(saved)
        return Loaded(self, mods)


class Loaded:
    def __init__(self, realm, mods):
        self.realm = realm
        self.mods = mods

    def __enter__(self):
        self.saved = {n: m for n, m in sys.modules.items() if n == PKG or n.startswith(PKG + ".")}
        for n in self.saved:
            del sys.modules[n]
        sys.modules.update(self.mods)
        sys.meta_path.insert(0, self.realm)
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self.realm)
        for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
            del sys.modules[n]
        sys.modules.update(self.saved)

    def __getitem__(self, name):
        return self.mods[PKG + ("." + name if name else "")]

    def state(self):
        """Fingerprint of the mutable module-level state (globals, class attributes, closures, defaults)."""
        out, seen = [], set()

        def val(v):
            t = type(v)
            if t in (dict, list, set, collections.deque):
                out.append((id(v), len(v)))
                if t is dict:
                    out.extend((id(x) if not isinstance(x, str) else x, id(y)) for x, y in v.items())
                else:
                    out.extend(id(x) for x in v)
            elif isinstance(v, SDict):
                out.append((id(v), v._n, len(v._e)))
                out.extend(id(e[1]) for e in v._e.values())
            elif isinstance(v, (SSet, SFrozenSet)):
                out.append((id(v), v._d._n, len(v._d)))
            elif t is types.FunctionType:
                func(v)
            elif t in (staticmethod, classmethod):
                func(v.__func__)
            elif t is property:
                for f in (v.fget, v.fset, v.fdel):
                    if type(f) is types.FunctionType:
                        func(f)
            elif hasattr(t, "cache_info"):
                out.append((id(v), v.cache_info().currsize))
            else:
                out.append(id(v))
                d = getattr(v, "__dict__", None)
                if type(d) is dict and not isinstance(v, (type, types.ModuleType)) and id(v) not in seen:
                    seen.add(id(v))
                    for x in list(d.values()):
                        val(x) if type(x) in (dict, list, set, SDict, SSet) else out.append(id(x))

        def func(f):
            if id(f) in seen or not _is_pkg(f):
                return
            seen.add(id(f))
            out.append((id(f), len(f.__dict__)))
            for d in (f.__defaults__ or ()):
                val(d)
            for d in (f.__kwdefaults__ or {}).values():
                val(d)
            for c in f.__closure__ or ():
                try:
                    val(c.cell_contents)
                except ValueError:
                    pass

        def _is_pkg(f):
            return str(getattr(f, "__module__", "")).startswith(PKG)

        for n, m in self.mods.items():
            for k, v in vars(m).items():
                if k.startswith("__") and k.endswith("__"):
                    continue
                if isinstance(v, type):
                    out.append(id(v))
                    if str(v.__module__).startswith(PKG) and id(v) not in seen:
                        seen.add(id(v))
                        for ak, av in list(vars(v).items()):
                            if ak in ("__dict__", "__weakref__", "__doc__", "_abc_impl"):
                                continue
                            val(av)
                else:
                    val(v)
        return hash(tuple(out))

    def find(self, attr):
        """First module (public ones first) that defines a name: survives moves between modules."""
        for n in sorted(self.mods, key=lambda n: (n.count("."), n)):
            if attr in vars(self.mods[n]):
                return getattr(self.mods[n], attr)
        raise AttributeError(attr)
