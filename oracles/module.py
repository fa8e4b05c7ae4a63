"""Reading generated type-hint modules: parsing, membership of values in declared types, tightness.

Plain Python over `ast`; independent of the package under test.
"""
from __future__ import annotations

import ast
import builtins
import io
import types
import unicodedata

CONTAINERS = {"List", "Sequence", "Set", "FrozenSet", "Tuple", "Dict", "Mapping", "MappingProxyType", "Iterator"}


class Bad(Exception):
    """The module cannot be read as a set of type declarations."""


def mangled(cls, name):
    """The identifier as Python reads it within a class."""
    bare = cls.lstrip("_")
    return f"_{bare}{name}" if bare and name.startswith("__") and not name.endswith("__") else name


def numpy_type(text):
    """Whether the text is NDArray[np.<name>] for a type numpy has."""
    import numpy as np

    try:
        n = ast.parse(text, mode="eval").body
    except SyntaxError:
        return False
    e = n.slice if isinstance(n, ast.Subscript) else None
    return isinstance(e, ast.Attribute) and ast.unparse(e.value) == "np" and isinstance(getattr(np, e.attr, None), type) and issubclass(getattr(np, e.attr), np.generic)


class TD:
    """A TypedDict declaration."""

    def __init__(self, name, functional):
        self.name = name
        self.functional = functional
        self.fields = {}  # key -> (type ast, required, readonly)
        self.docs = {}
        self.doc = None
        self.dups = []


class Module:
    def __init__(self, text):
        self.text = text
        try:
            self.tree = ast.parse(text)
        except (SyntaxError, ValueError) as e:
            raise Bad(f"not valid Python: {e}") from None
        try:
            compile(text, "<generated>", "exec", dont_inherit=True)
        except (SyntaxError, ValueError) as e:
            raise Bad(f"does not compile: {e}") from None
        self.imports = {}  # bound name -> (module, original or None)
        self.import_order = []
        self.decls = {}  # name -> ("alias", ast) | ("td", TD) | ("class", ClassDef)
        self.order = []
        self.redeclared = []
        self.stray = []
        last = None
        for n in self.tree.body:
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module, a.name)
                    self.import_order.append((n.module, a.name, a.asname))
                last = None
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name] = (a.name, None)
                    self.import_order.append((a.name, None, a.asname))
                last = None
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if ast.unparse(n.annotation) != "TypeAlias" or n.value is None:
                    raise Bad(f"unexpected annotation: {ast.unparse(n)}")
                self._declare(n.target.id, ("alias", n.value))
                last = None
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                name = n.targets[0].id
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "TypedDict":
                    last = self._functional(name, v)
                    self._declare(name, ("td", last))
                else:
                    self._declare(name, ("alias", v))
                    last = None
            elif isinstance(n, ast.ClassDef):
                bases = [ast.unparse(b) for b in n.bases]
                if bases == ["TypedDict"]:
                    self._declare(n.name, ("td", self._class_td(n)))
                else:
                    self._declare(n.name, ("class", n))
                last = None
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                if last is not None and last.doc is None:
                    last.doc = n.value.value
                else:
                    self.stray.append(n.value.value)
            else:
                raise Bad(f"unexpected statement: {ast.unparse(n)[:80]}")

    def _declare(self, name, d):
        if name in self.decls:
            self.redeclared.append(name)
        self.decls[name] = d
        self.order.append(name)

    def _field(self, ann):
        required, readonly = True, False
        while isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name) and ann.value.id in ("NotRequired", "ReadOnly"):
            if ann.value.id == "NotRequired":
                required = False
            else:
                readonly = True
            ann = ann.slice
        return ann, required, readonly

    def _class_td(self, n):
        td = TD(n.name, False)
        body = list(n.body)
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            td.doc = body[0].value.value
            body = body[1:]
        last = None
        for b in body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is None:
                last = mangled(n.name, b.target.id)
                if last in td.fields:
                    td.dups.append(last)
                td.fields[last] = self._field(b.annotation)
            elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                if b.value.value is ...:
                    continue
                if isinstance(b.value.value, str) and last is not None and last not in td.docs:
                    td.docs[last] = b.value.value
                    continue
                raise Bad(f"unexpected expression in class {n.name}")
            else:
                raise Bad(f"unexpected statement in class {n.name}: {ast.unparse(b)[:80]}")
        return td

    def _functional(self, name, call):
        td = TD(name, True)
        if len(call.args) != 2 or call.keywords:
            raise Bad(f"malformed functional TypedDict {name}")
        a, d = call.args
        if not (isinstance(a, ast.Constant) and isinstance(a.value, str) and unicodedata.normalize("NFKC", a.value) == name):
            raise Bad(f"functional TypedDict {name} carries another name: {ast.unparse(a)}")
        if not isinstance(d, ast.Dict):
            raise Bad(f"malformed functional TypedDict {name}")
        for k, v in zip(d.keys, d.values):
            if not (isinstance(k, ast.Constant) and isinstance(k.value, str)):
                raise Bad(f"functional TypedDict {name} has a key that is not a string literal")
            if k.value in td.fields:
                td.dups.append(k.value)
            td.fields[k.value] = self._field(v)
        return td

    # ------------------------------------------------------------------ names
    def undefined(self):
        """(where, name) for every name used before (or without) being imported or declared."""
        have = set(self.imports)
        out = []
        lazy = any(m == "__future__" and o == "annotations" for m, o in self.imports.values())

        later = []

        def names(node, where, ann=False, cls=""):
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and not hasattr(builtins, x.id):
                    if ann and lazy:
                        later.append((where, x.id))
                    elif mangled(cls, x.id) not in have:
                        out.append((where, x.id))
                elif isinstance(x, ast.Constant) and type(x.value) is str and x.value.startswith("NDArray["):
                    later.extend((where, n) for n in ("NDArray", "np"))
                    if not numpy_type(x.value):
                        out.append((where, x.value))

        for n in self.tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(n, ast.AnnAssign):
                names(n.annotation, n.target.id, True)
                names(n.value, n.target.id)
                have.add(n.target.id)
            elif isinstance(n, ast.Assign):
                names(n.value, n.targets[0].id)
                have.add(n.targets[0].id)
            elif isinstance(n, ast.ClassDef):
                for b in n.bases:
                    names(b, n.name)
                for b in n.body:
                    if isinstance(b, ast.AnnAssign):
                        names(b.annotation, n.name, True, n.name)
                    elif isinstance(b, ast.FunctionDef):
                        for d in b.decorator_list:
                            names(d, n.name, cls=n.name)
                        for a in [*b.args.posonlyargs, *b.args.args, *b.args.kwonlyargs, b.args.vararg, b.args.kwarg]:
                            if a is not None and a.annotation is not None:
                                names(a.annotation, n.name, True, n.name)
                        for d in [*b.args.defaults, *b.args.kw_defaults]:
                            if d is not None:
                                names(d, n.name, cls=n.name)
                        if b.returns is not None:
                            names(b.returns, n.name, True, n.name)
                have.add(n.name)
        return out + [(w, n) for w, n in later if n not in have]

    def used_names(self):
        used = set()
        for n in self.tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    used.add(x.id)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    try:
                        for y in ast.walk(ast.parse(x.value, mode="eval")):
                            if isinstance(y, ast.Name):
                                used.add(y.id)
                    except Exception:  # noqa: BLE001
                        pass
        return used

    def get(self, name):
        d = self.decls.get(name)
        if d is None:
            raise Bad(f"{name} is not declared")
        return d


# ------------------------------------------------------------------ membership
def sub(t):
    """(head, args) of a type expression."""
    if isinstance(t, ast.Subscript):
        s = t.slice
        args = list(s.elts) if isinstance(s, ast.Tuple) else [s]
        return ast.unparse(t.value), args
    if isinstance(t, ast.Constant) and t.value is None:
        return "None", []
    if isinstance(t, ast.Constant) and isinstance(t.value, str):
        return "str:" + t.value, []
    return ast.unparse(t), []


def _ellipsis(t):
    return isinstance(t, ast.Constant) and t.value is ...


_NOMINAL = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type)}


def admits(mod, t, v, hidden=None):
    """Is the value a member of the declared type (static typing semantics: bool < int < float)?"""
    h, a = sub(t)
    if h in mod.decls:
        kind, d = mod.decls[h]
        if kind == "alias":
            return admits(mod, d, v, hidden)
        if kind == "td":
            return td_admits(mod, d, v, hidden)
        return class_admits(mod, d, v)
    if h in ("Any", "object"):
        return True
    if h == "None":
        return v is None
    if h == "Optional":
        return v is None or admits(mod, a[0], v, hidden)
    if h == "Union":
        return any(admits(mod, x, v, hidden) for x in a)
    if h == "List":
        return isinstance(v, list) and all(admits(mod, a[0], e, hidden) for e in v)
    if h == "Sequence":
        return isinstance(v, (list, tuple)) and all(admits(mod, a[0], e, hidden) for e in v)
    if h == "Set":
        return isinstance(v, set) and all(admits(mod, a[0], e, hidden) for e in v)
    if h == "FrozenSet":
        return isinstance(v, frozenset) and all(admits(mod, a[0], e, hidden) for e in v)
    if h == "Iterator":
        return is_iter(v) and all(admits(mod, a[0], e, hidden) for e in iter_items(v))
    if h == "Tuple":
        if not isinstance(v, tuple):
            return False
        if len(a) == 2 and _ellipsis(a[1]):
            return all(admits(mod, a[0], e, hidden) for e in v)
        if len(a) == 1 and isinstance(a[0], ast.Tuple) and not a[0].elts:
            return v == ()
        return len(a) == len(v) and all(admits(mod, x, e, hidden) for x, e in zip(a, v))
    if h in ("Dict", "Mapping", "MappingProxyType"):
        ok = {"Dict": dict, "Mapping": (dict, types.MappingProxyType), "MappingProxyType": types.MappingProxyType}[h]
        if not isinstance(v, ok):
            return False
        return all(
            admits(mod, a[0], k, hidden) and admits(mod, a[1], x, hidden) for k, x in v.items() if not is_hidden(k, hidden)
        )
    if h == "Type":
        n = sub(a[0])[0]
        return isinstance(v, type) and v.__name__ == (n[4:] if n.startswith("str:") else n)
    if h == "Callable":
        if not callable(v):
            return False
        if not a:
            return True
        import inspect

        return isinstance(a[0], ast.List) and len(a[0].elts) == len(inspect.signature(v).parameters)
    if h == "ModuleType":
        return isinstance(v, types.ModuleType)
    if h in ("TextIO", "BinaryIO"):
        return isinstance(v, io.IOBase) and isinstance(v, io.TextIOBase) == (h == "TextIO")
    if h.startswith("str:"):
        n = h[4:]
        if n.startswith("NDArray["):
            import numpy as np

            return isinstance(v, np.ndarray) and n == f"NDArray[np.{v.dtype.type.__name__}]"
        return any(c.__name__ == n for c in type(v).__mro__)
    if h == "pd.DataFrame":
        import pandas as pd

        return isinstance(v, pd.DataFrame)
    if h == "pd.Series":
        import pandas as pd

        return isinstance(v, pd.Series) and all(admits(mod, a[0], e, hidden) for e in v)
    if h == "NoneType":
        return v is None
    if h in _NOMINAL:
        c = _NOMINAL[h]
        if c is float:
            return isinstance(v, (float, int))
        if c is complex:
            return isinstance(v, (complex, float, int))
        return isinstance(v, c)
    raise Bad(f"unknown type expression: {h}")


def is_hidden(k, hidden):
    return hidden is not None and isinstance(k, str) and k.startswith(hidden)


def is_iter(v):
    return hasattr(v, "__next__") and hasattr(v, "__iter__") and not isinstance(v, io.IOBase)


def iter_items(v):
    import copy

    try:
        return list(copy.copy(v))
    except Exception:  # noqa: BLE001
        return []


def td_admits(mod, td, v, hidden):
    if not isinstance(v, dict):
        return False
    keys = [k for k in v if not is_hidden(k, hidden)]
    if any(not isinstance(k, str) or k not in td.fields for k in keys):
        return False
    for k, (t, req, _) in td.fields.items():
        if k in v:
            if not admits(mod, t, v[k], hidden):
                return False
        elif req:
            return False
    return True


def class_admits(mod, c, v):
    bases = [ast.unparse(b) for b in c.bases]
    if bases == ["Protocol"]:
        return callable(v)
    if bases == ["pd.DataFrame"]:
        import pandas as pd

        return isinstance(v, pd.DataFrame)
    raise Bad(f"unexpected class {c.name}({', '.join(bases)})")


# ------------------------------------------------------------------ tightness
def union_members(mod, t):
    h, a = sub(t)
    if h == "Union":
        return [m for x in a for m in union_members(mod, x)]
    return [t]


def _outer(mod, t, v):
    """The value's own runtime type is what this (non-union) type names outermost."""
    h, a = sub(t)
    if h in mod.decls:
        kind, d = mod.decls[h]
        if kind == "alias":
            return any(_outer(mod, m, v) for m in union_members(mod, d))
        if kind == "td":
            return isinstance(v, dict)
        return True
    if h == "Optional":
        return v is None
    if h == "List":
        return isinstance(v, list)
    if h == "Sequence":
        return isinstance(v, list)
    if h in ("Dict", "Mapping"):
        return isinstance(v, dict)
    if h in _NOMINAL:
        return type(v).__name__ == h
    if h == "Any":
        return False
    return True


def tight(mod, root, values, hidden=None, skip_float=True):
    """Problems where a declared alternative, key or optionality has no witness in the values."""
    problems = []
    pool = {n: [] for n in mod.decls}

    def flow(t, vs, where):
        h, a = sub(t)
        if h in mod.decls:
            pool[h].extend(vs)
            return
        if h == "Union":
            ms = union_members(mod, t)
            for m in ms:
                mine = [v for v in vs if _outer(mod, m, v) and admits(mod, m, v, hidden)]
                if not mine:
                    problems.append(f"{where}: alternative {ast.unparse(m)} of {ast.unparse(t)} has no witness")
                flow(m, mine, where)
            seen = [ast.unparse(m) for m in ms]
            for m in seen:
                if seen.count(m) > 1:
                    problems.append(f"{where}: alternative {m} is repeated in {ast.unparse(t)}")
                    break
            return
        if h == "Any":
            if vs:
                problems.append(f"{where}: Any where elements of type {sorted({type(v).__name__ for v in vs})} are known")
            return
        if h in ("List", "Sequence", "Set", "FrozenSet", "Iterator", "pd.Series"):
            es = [e for v in vs for e in (iter_items(v) if h == "Iterator" else v)]
            if sub(a[0])[0] == "Any" and any(len(list(iter_items(v) if h == "Iterator" else v)) == 0 for v in vs):
                return
            flow(a[0], es, where)
            return
        if h == "Tuple":
            if len(a) == 2 and _ellipsis(a[1]):
                es = [e for v in vs for e in v]
                if sub(a[0])[0] == "Any" and any(len(v) == 0 for v in vs):
                    return
                flow(a[0], es, where)
                return
            for i, x in enumerate(a):
                if isinstance(x, ast.Tuple):
                    continue
                flow(x, [v[i] for v in vs if len(v) == len(a)], where)
            return
        if h in ("Dict", "Mapping", "MappingProxyType"):
            if any(all(is_hidden(k, hidden) for k in v) for v in vs) and [sub(x)[0] for x in a] == ["Any", "Any"]:
                return
            flow(a[0], [k for v in vs for k in v if not is_hidden(k, hidden)], where)
            flow(a[1], [x for v in vs for k, x in v.items() if not is_hidden(k, hidden)], where)
            return
        if h in _NOMINAL and h not in ("object",):
            if not any(type(v).__name__ == h for v in vs):
                problems.append(f"{where}: {h} has no witness among {sorted({type(v).__name__ for v in vs})}")
            return
        if h == "Optional":
            if not any(v is None for v in vs):
                problems.append(f"{where}: Optional has no None witness")
            return
        if not vs:
            problems.append(f"{where}: {ast.unparse(t)} has no witness")

    pool.setdefault(root, []).extend(values)
    for name in reversed(mod.order):
        kind, d = mod.decls[name]
        vs = pool[name]
        if not vs:
            problems.append(f"{name} is declared but nothing in the data has that type")
            continue
        if kind == "alias":
            flow(d, vs, name)
        elif kind == "td":
            ds = [v for v in vs if isinstance(v, dict)]
            for k, (t, req, _) in d.fields.items():
                with_k = [v[k] for v in ds if k in v]
                if not with_k:
                    problems.append(f"{name}: key {k!r} is in no value")
                    continue
                if not req and len(with_k) == len(ds):
                    problems.append(f"{name}: key {k!r} is NotRequired but every value has it")
                flow(t, with_k, f"{name}.{k}")
    return problems
