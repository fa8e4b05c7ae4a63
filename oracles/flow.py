"""Following values through the declared types: which declaration speaks about which values."""
from __future__ import annotations

import ast
import types

from .module import CONTAINERS, TD, Bad, _ellipsis, admits, is_hidden, is_iter, iter_items, sub, union_members


def members(mod, t):
    """Alternatives of a type expression, unions and their aliases opened."""
    h, a = sub(t)
    if h == "Union":
        return [m for x in a for m in members(mod, x)]
    return [t]


def resolve(mod, t):
    """The expression or declaration a type stands for once aliases are opened."""
    h, _ = sub(t)
    seen = 0
    while h in mod.decls and seen < 50:
        kind, d = mod.decls[h]
        if kind != "alias":
            return kind, d
        t = d
        h, _ = sub(t)
        seen += 1
    return "expr", t


def td_flows(mod, root, values, hidden=None):
    """{TypedDict name: [dicts it types]} following every value through every alternative that admits it."""
    out = {n: [] for n, (k, _) in mod.decls.items() if k == "td"}

    def go(t, vs):
        if not vs:
            return
        kind, d = resolve(mod, t)
        if kind == "td":
            out[d.name].extend(v for v in vs if isinstance(v, dict))
            for k, (ft, _, _) in d.fields.items():
                go(ft, [v[k] for v in vs if isinstance(v, dict) and k in v])
            return
        if kind != "expr":
            return
        h, a = sub(d)
        if h == "Union":
            for m in members(mod, d):
                go(m, [v for v in vs if admits(mod, m, v, hidden)])
        elif h in ("List", "Sequence", "Set", "FrozenSet"):
            go(a[0], [e for v in vs for e in v])
        elif h == "Iterator":
            go(a[0], [e for v in vs for e in iter_items(v)])
        elif h == "Tuple":
            if len(a) == 2 and _ellipsis(a[1]):
                go(a[0], [e for v in vs for e in v])
            else:
                for i, x in enumerate(a):
                    go(x, [v[i] for v in vs if len(v) > i])
        elif h in ("Dict", "Mapping", "MappingProxyType"):
            go(a[1], [x for v in vs for k, x in v.items() if not is_hidden(k, hidden)])

    go(ast.Name(root), list(values))
    return out


# ------------------------------------------------------------------ how each container is spelled
class Spelling:
    """Strict membership: containers are spelled as the strategies say."""

    def __init__(self, mod, lists="list", tuples="fixed", dicts="TypedDict", hidden=None):
        self.mod, self.lists, self.tuples, self.dicts, self.hidden = mod, lists, tuples, dicts, hidden

    def ok(self, t, v):
        mod = self.mod
        if sub(t)[0] == "Union":
            return any(self.ok(m, v) for m in members(mod, t))
        kind, d = resolve(mod, t)
        if kind == "expr" and sub(d)[0] == "Union":
            return any(self.ok(m, v) for m in members(mod, d))
        if isinstance(v, dict):
            keys = [k for k in v if not is_hidden(k, self.hidden)]
            if all(type(k) is str for k in v) and self.dicts == "TypedDict":
                return kind == "td" and all(
                    (k in v and self.ok(ft, v[k])) or (k not in v and not req) for k, (ft, req, _) in d.fields.items()
                ) and all(k in d.fields for k in keys)
            want = "Mapping" if self.dicts == "Mapping" else "Dict"
            return self._mapping(kind, d, v, want)
        if isinstance(v, types.MappingProxyType):
            return self._mapping(kind, d, v, "MappingProxyType")
        if kind != "expr":
            return admits(mod, t, v, self.hidden)
        h, a = sub(d)
        if isinstance(v, list):
            return h == ("Sequence" if self.lists == "Sequence" else "List") and all(self.ok(a[0], e) for e in v)
        if isinstance(v, tuple):
            if h != "Tuple":
                return False
            open_ = len(a) == 2 and _ellipsis(a[1])
            if not v:
                return (open_ and sub(a[0])[0] == "Any") or (len(a) == 1 and isinstance(a[0], ast.Tuple)) or (
                    open_ and self.tuples == "any size")
            if self.tuples == "any size":
                return open_ and all(self.ok(a[0], e) for e in v)
            return not open_ and len(a) == len(v) and all(self.ok(x, e) for x, e in zip(a, v))
        if isinstance(v, set):
            return h == "Set" and all(self.ok(a[0], e) for e in v)
        if isinstance(v, frozenset):
            return h == "FrozenSet" and all(self.ok(a[0], e) for e in v)
        if is_iter(v):
            return h == "Iterator" and all(self.ok(a[0], e) for e in iter_items(v))
        return h not in CONTAINERS and admits(mod, t, v, self.hidden)

    def _mapping(self, kind, d, v, want):
        if kind != "expr":
            return False
        h, a = sub(d)
        return h == want and all(
            admits(self.mod, a[0], k) and self.ok(a[1], x) for k, x in v.items() if not is_hidden(k, self.hidden)
        )


# ------------------------------------------------------------------ shape without alias names
def expand(mod, t, depth=40):
    """The type with every alias opened, as nested tuples; alternatives of a union are a set."""
    if depth == 0:
        raise Bad("declarations are nested without end")
    if isinstance(t, ast.Tuple):
        return ("tuple", *[expand(mod, x, depth - 1) for x in t.elts])
    if isinstance(t, ast.List):
        return ("list", *[expand(mod, x, depth - 1) for x in t.elts])
    h, a = sub(t)
    if h in mod.decls:
        kind, d = mod.decls[h]
        if kind == "alias":
            return expand(mod, d, depth - 1)
        if kind == "td":
            return ("td", frozenset((k, r, ro, expand(mod, ft, depth - 1)) for k, (ft, r, ro) in d.fields.items()), d.doc)
        c = ast.parse(ast.unparse(d)).body[0]
        c.name = "_"
        return ("class", ast.unparse(c))
    if h == "Union":
        ms = set()
        for x in a:
            e = expand(mod, x, depth - 1)
            ms |= e[1] if e[0] == "Union" else {e}
        return ("Union", frozenset(ms)) if len(ms) > 1 else next(iter(ms))
    if not a:
        return (h,)
    return (h, *[expand(mod, x, depth - 1) for x in a])


def height(mod, t, depth=40):
    """Levels of containers a type has: 0 for a plain one."""
    if depth == 0:
        raise Bad("declarations are nested without end")
    if isinstance(t, (ast.Tuple, ast.List)):
        return max((height(mod, x, depth - 1) for x in t.elts), default=0)
    h, a = sub(t)
    if h in mod.decls:
        kind, d = mod.decls[h]
        if kind == "alias":
            return height(mod, d, depth - 1)
        if kind == "td":
            return 1 + max((height(mod, ft, depth - 1) for ft, _, _ in d.fields.values()), default=0)
        return 0
    if h == "Union":
        return max(height(mod, x, depth - 1) for x in a)
    if h in ("NotRequired", "ReadOnly", "Optional"):
        return height(mod, a[0], depth - 1)
    if h in CONTAINERS or h == "pd.Series":
        return 1 + max((height(mod, x, depth - 1) for x in a), default=0)
    return 0


def inlined(t):
    """Container expressions written inside an expression (not the expression itself)."""
    top = t
    for x in ast.walk(t):
        if x is not top and isinstance(x, ast.Subscript) and (sub(x)[0] in CONTAINERS or sub(x)[0] == "pd.Series"):
            yield x
