"""Callables whose signature is symbolic, and what `inspect`, `ast` and `textwrap` say about them.

The rendering of signatures follows the standard library (every path compares it with the real one).
Parameter names stay symbolic; kinds, annotations, defaults and bodies are chosen when looked at.
"""
from __future__ import annotations

import ast
import inspect
import linecache
import textwrap
import types

from .core import Proxy, eng
from .data import Lazy, concrete, force
from .symstr import SymStr, _pin, cat, chars_of, lift, mk, model_str, plain, to_str

EMPTY = inspect.Parameter.empty
P = inspect.Parameter
KINDS = {"PO": P.POSITIONAL_ONLY, "PK": P.POSITIONAL_OR_KEYWORD, "VP": P.VAR_POSITIONAL, "KO": P.KEYWORD_ONLY, "VK": P.VAR_KEYWORD}


def _res(x):
    while isinstance(x, Lazy):
        x = x._resolve()
    return x


class SymParameter(Proxy):
    empty = EMPTY
    POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = KINDS.values()

    def __init__(self, name, kind, annotation, default):
        self.name = name
        self.kind = kind
        self._a = annotation
        self._d = default

    @property
    def __class__(self):
        return P

    @property
    def annotation(self):
        self._a = _res(self._a)
        return self._a

    @property
    def default(self):
        self._d = _res(self._d)
        return self._d

    def replace(self, **k):
        return SymParameter(k.get("name", self.name), k.get("kind", self.kind), k.get("annotation", self._a), k.get("default", self._d))

    def __str__(self):
        s = self.name
        if self.annotation is not EMPTY:
            s = cat(s, ": ", inspect.formatannotation(self.annotation))
        if self.default is not EMPTY:
            s = cat(s, " = " if self.annotation is not EMPTY else "=", repr(self.default))
        if self.kind is P.VAR_POSITIONAL:
            s = cat("*", s)
        elif self.kind is P.VAR_KEYWORD:
            s = cat("**", s)
        return s

    __repr__ = __str__


class SymSignature(Proxy):
    empty = EMPTY

    def __init__(self, params, ret):
        self._p = list(params)
        self._r = ret

    @property
    def __class__(self):
        return inspect.Signature

    @property
    def parameters(self):
        from .containers import SDict

        return types.MappingProxyType(SDict([(p.name, p) for p in self._p]))

    @property
    def return_annotation(self):
        self._r = _res(self._r)
        return self._r

    def replace(self, *, parameters=None, return_annotation=Ellipsis):
        ps = self._p if parameters is None else list(parameters)
        return SymSignature(ps, self._r if return_annotation is Ellipsis else return_annotation)

    def __str__(self):
        out = []
        pos_only, kw_only = False, True
        for p in self._p:
            if p.kind is P.POSITIONAL_ONLY:
                pos_only = True
            elif pos_only:
                out.append("/")
                pos_only = False
            if p.kind is P.VAR_POSITIONAL:
                kw_only = False
            elif p.kind is P.KEYWORD_ONLY and kw_only:
                out.append("*")
                kw_only = False
            out.append(to_str(p))
        if pos_only:
            out.append("/")
        s = cat("(", lift(", ").join(out) if out else "", ")")
        if self.return_annotation is not EMPTY:
            s = cat(s, " -> ", inspect.formatannotation(self.return_annotation))
        return s

    def __repr__(self):
        return cat("<Signature ", to_str(self), ">")


class SymFunction(Proxy):
    """`spec`: name, params [(name, kind, annotation code, default code)], ret code, body, is_async, wrap, source."""

    def __init__(self, spec, ns):
        self._s = spec
        self._ns = ns
        self._params = None

    @property
    def __class__(self):
        return types.MethodType if _res(self._s["wrap"]) == "method" else types.FunctionType

    @property
    def __name__(self):
        return self._s["name"]



    def __call__(self, *a, **k):
        raise TypeError("symbolic callables are not called")

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    @property
    def __doc__(self):
        return None

    @property
    def __code__(self):
        return SymCode(self)

    @property
    def __wrapped__(self):
        if not self._outer():
            raise AttributeError("__wrapped__")
        return SymFunction({**self._s, "outer": ""}, self._ns)

    def _outer(self):
        return _res(self._s.get("outer", ""))

    def _value(self, code):
        def ev(c):
            return EMPTY if c == "" else eval(c, dict(self._ns))  # noqa: S307

        if isinstance(code, Lazy):
            return Lazy(code._name, [(lambda c=c: ev(c)) for c in code._alts])
        return ev(code)

    def _signature(self):
        if self._params is None:
            self._params = [
                SymParameter(n, KINDS[k], self._value(a), self._value(d)) for n, k, a, d in self._s["params"]()
            ]
            self._ret = self._value(self._s["ret"])
        return SymSignature(self._params, self._ret)

    def _pieces(self):
        """The text of the definition (name symbolic, the rest chosen)."""
        s = {k: _res(v) for k, v in self._s.items() if k != "params"}
        parts, pos, kw = [], False, True
        for n, k, a, d in self._s["params"]():
            a, d = _res(a), _res(d)
            if k == "PO":
                pos = True
            elif pos:
                parts.append("/")
                pos = False
            if k == "VP":
                kw = False
            elif k == "KO" and kw:
                parts.append("*")
                kw = False
            x = cat({"VP": "*", "VK": "**"}.get(k, ""), n)
            if a and s["name"] != "<lambda>":
                x = cat(x, ": ", a)
            if d:
                x = cat(x, "=", d)
            parts.append(x)
        if pos:
            parts.append("/")
        args = lift(", ").join(parts) if parts else ""
        if s["name"] == "<lambda>":
            return cat("v = lambda ", args, ": 1\n")
        if s["wrap"] == "method":
            args = cat("self, ", args) if parts else "self"
        head = cat("async def " if s["async"] else "def ", s["name"], "(", args, ")", cat(" -> ", s["ret"]) if s["ret"] else "", ":\n")
        lines = [head] + [f"    {x}\n" for x in s["body"].split("\n")]
        if s["wrap"] == "method":
            lines = [cat("    ", x) for x in lines]
        return cat(*lines)

    def _source(self):
        if not _res(self._s["source"]):
            raise OSError("could not get source code")
        return self._pieces()

    def _symx_plain(self):
        eng().notes.add("concretised callable")
        force(self)
        return self._symx_concrete(plain)

    def _symx_force(self, f):
        for k, v in self._s.items():
            if k != "params":
                f(v)
        for p in self._s["params"]():
            for x in p:
                f(x)

    def _symx_concrete(self, c):
        src = c(self._pieces())
        wrap, source = c(self._s["wrap"]), c(self._s["source"])
        return build(src, self._s["name"], wrap, source, self._ns, c(self._outer()))


class SymCode(Proxy):
    """The code of a callable: its own, not that of the one it wraps."""

    def __init__(self, f):
        self._f = f

    @property
    def __class__(self):
        return types.CodeType


def _own_source(f):
    if not f._outer():
        return f._source()
    if not _res(f._s["source"]):
        raise OSError("could not get source code")
    return "@functools.wraps(fun)\n" + f._outer() + "\n"


def build(src, name, wrap, source, ns, outer=""):
    """The real function of a definition."""
    import functools
    import hashlib

    if outer:
        src, name, ns = f"{src}@functools.wraps({name})\n{outer}\n", "outer", {**ns, "functools": functools}
    text = ("class C:\n" + src) if wrap == "method" else src
    file = f"<symx-{hashlib.md5(text.encode()).hexdigest()}-{source}>"
    if source:
        linecache.cache[file] = (len(text), None, text.splitlines(True), file)
    scope = dict(ns)
    exec(compile(text, file, "exec", dont_inherit=True), scope)
    if wrap == "method":
        return getattr(scope["C"](), name)
    return scope["v"] if name == "<lambda>" else scope[name]


# ------------------------------------------------------------------ the standard library on them
def _sym(f, name):
    native = getattr(inspect, name)

    def run(x, *a, **k):
        x = _res(x)
        if type(x) is SymCode and name == "getsource":
            return _own_source(x._f)
        return f(x) if type(x) is SymFunction else native(plain(x), *a, **k)

    return native, run


def dedent(text):
    if type(text) is not SymStr:
        return textwrap.dedent(plain(text))
    lines = text.split("\n")
    margin = None
    out = []
    for ln in lines:
        ws = len(ln) - len(ln.lstrip(" \t"))
        if ws == len(ln):
            out.append("")
            continue
        indent = plain(ln[:ws])
        if margin is None:
            margin = indent
        else:
            n = 0
            while n < min(len(margin), len(indent)) and margin[n] == indent[n]:
                n += 1
            margin = margin[:n]
        out.append(ln)
    m = len(margin or "")
    return lift("\n").join([x[m:] if len(x) else x for x in out])


def parse(src, *a, **k):
    """`ast.parse` of a symbolic text: one shape per path, symbolic identifiers kept."""
    if type(src) is not SymStr:
        return ast.parse(plain(src), *a, **k)
    from .uniform import uniform_source

    uniform_source(src)
    for _ in range(2):
        m = eng().ensure_model()
        text = model_str(src, m)
        tree = ast.parse(text, *a, **k)
        starts = [0]
        for ln in text.split("\n"):
            starts.append(starts[-1] + len(ln) + 1)
        lines = text.split("\n")
        spans = []
        for n in ast.walk(tree):
            attr = "id" if type(n) is ast.Name else "arg" if type(n) is ast.arg else None
            if attr is None:
                continue
            i = starts[n.lineno - 1] + len(lines[n.lineno - 1].encode()[: n.col_offset].decode())
            spans.append((n, attr, i, i + len(getattr(n, attr))))
        covered = {j for _, _, i, e in spans for j in range(i, e)}
        loose = [c for j, c in enumerate(src._c) if type(c) is not str and j not in covered]
        if not loose:
            break
        for c in loose:
            _pin(c)
        src = mk([_pin(c) if j not in covered and type(c) is not str else c for j, c in enumerate(src._c)])
        if type(src) is not SymStr:
            return ast.parse(src, *a, **k)
    for n, attr, i, e in spans:
        setattr(n, attr, mk(src._c[i:e]))
    return tree


def unparse(node):
    for n in ast.walk(node):
        for f, v in ast.iter_fields(n):
            if isinstance(v, Proxy):
                setattr(n, f, plain(v))
    return ast.unparse(node)


def _Signature(parameters=None, **k):
    ps = list(parameters) if parameters is not None else []
    if any(type(p) is SymParameter for p in ps):
        return SymSignature(ps, k.get("return_annotation", EMPTY))
    return inspect.Signature(ps or None, **k)


def table():
    t = dict([
        _sym(lambda f: f._signature(), "signature"),
        _sym(lambda f: f._source(), "getsource"),
        _sym(lambda f: _async(f) and not _gen(f), "iscoroutinefunction"),
        _sym(lambda f: not _async(f) and _gen(f), "isgeneratorfunction"),
        _sym(lambda f: _async(f) and _gen(f), "isasyncgenfunction"),
        _sym(lambda f: _res(f._s["wrap"]) != "method", "isfunction"),
        _sym(lambda f: _res(f._s["wrap"]) == "method", "ismethod"),
        _sym(lambda f: False, "isclass"),
        _sym(lambda f: False, "isbuiltin"),
        _sym(lambda f: True, "isroutine"),
        _sym(lambda f: f.__wrapped__ if f._outer() else f, "unwrap"),
    ])
    t[textwrap.dedent] = dedent
    t[ast.parse] = parse
    t[ast.unparse] = unparse
    t[inspect.Signature] = _Signature
    return t


def _async(f):
    return f._outer().startswith("async") if f._outer() else bool(_res(f._s["async"]))


def _gen(f):
    return "yield" in (f._outer() or _res(f._s["body"]))
