"""What the interface file of `LazyTypeHintLive` says, and what a history of calls should leave behind."""
from __future__ import annotations

import ast
import builtins
import keyword

from symx.runner import Exc

from .yamldoc import without_docs

METHODS = ("from_data", "from_yaml_file")
CLS = "LazyTypeHintLive"


def valid_name(n):
    return n.isidentifier() and not keyword.iskeyword(n)


def names_used(tree):
    return {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}


def defined(tree):
    out = set(dir(builtins))
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, (ast.ClassDef, ast.FunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.Assign):
            out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        elif isinstance(n, ast.AnnAssign):
            out.add(n.target.id)
    return out


def signature(f, skip=False):
    """Arguments and result, without what an overload changes."""
    a = f.args
    rows = []
    for kind, xs in (("pos", a.posonlyargs + a.args), ("kw", a.kwonlyargs), ("var", [a.vararg, a.kwarg])):
        for x in xs:
            if x is not None:
                ann = "" if skip and x.arg == "class_name" else (ast.unparse(x.annotation) if x.annotation else "")
                rows.append((kind, x.arg, ann))
    rows.append([ast.unparse(d) if d else None for d in [*a.defaults, *a.kw_defaults]])
    if not skip:
        rows.append(ast.unparse(f.returns) if f.returns else None)
    return rows


def class_of(tree, name=CLS):
    for n in tree.body:
        if isinstance(n, ast.ClassDef) and n.name == name:
            return n
    return None


def methods(cls):
    out = {}
    for n in cls.body:
        if isinstance(n, ast.FunctionDef):
            out.setdefault(n.name, []).append(n)
    return out


def interface(pyi, source, names):
    """Problems of the interface text, given the source of the module and the classes that exist."""
    try:
        tree = ast.parse(pyi)
    except SyntaxError as e:
        yield f"the interface file is no Python: {e}"
        return
    cls = class_of(tree)
    if cls is None:
        yield f"the interface file has no class {CLS}"
        return
    imported = [(n.module, a.name, a.asname) for n in tree.body if isinstance(n, ast.ImportFrom) for a in n.names if ".build" in (n.module or "")]
    want = [(f"lazy_type_hint.generators.build.{n}", n, None) for n in names]
    if sorted(imported, key=str) != sorted(want, key=str):
        yield f"classes imported are {imported}, those generated are {sorted(names)}"
    have, src = methods(cls), methods(class_of(ast.parse(source)))
    for name, fs in src.items():
        if name.startswith("_") and not name.startswith("__"):
            continue
        if name not in have:
            yield f"{name} is missing in the interface"
            continue
        generic = [f for f in have[name] if signature(f) == signature(fs[-1])]
        if len(generic) != 1 or have[name][-1] is not generic[0]:
            yield f"{name} has no final overload with its own signature"
            continue
        special = have[name][:-1]
        if name not in METHODS:
            if special:
                yield f"{name} has overloads"
            continue
        got = []
        for f in special:
            if signature(f, True) != signature(fs[-1], True):
                yield f"an overload of {name} differs in more than class_name"
            ann = [x.annotation for x in f.args.args + f.args.kwonlyargs if x.arg == "class_name"]
            lit = ann[0] if ann else None
            if not (isinstance(lit, ast.Subscript) and ast.unparse(lit.value) == "Literal" and isinstance(lit.slice, ast.Constant)):
                yield f"an overload of {name} is not for the name of one class"
                continue
            if not isinstance(f.returns, ast.Name) or f.returns.id != lit.slice.value:
                yield f"the overload of {name} for {lit.slice.value!r} returns {f.returns and ast.unparse(f.returns)}"
            got.append(lit.slice.value)
        if sorted(got) != sorted(names):
            yield f"{name} has overloads for {sorted(got)}, the classes generated are {sorted(names)}"
        if names:
            for f in have[name]:
                if not any(ast.unparse(d) == "overload" for d in f.decorator_list):
                    yield f"an overload of {name} is not marked as one"
    created = [n for n in cls.body if isinstance(n, (ast.AnnAssign, ast.Assign)) and "classes_created" in ast.unparse(n).split("=")[0]]
    lits = [c.value for n in created for c in ast.walk(n.value) if isinstance(c, ast.Constant) and isinstance(c.value, str)] if len(created) == 1 else None
    if lits is None or sorted(lits) != sorted(names):
        yield f"classes_created lists {lits}, the classes generated are {sorted(names)}"
    used = set()
    for fs in have.values():
        for f in fs:
            for x in [*(a.annotation for a in f.args.args + f.args.kwonlyargs), f.returns]:
                used |= names_used(x) if x is not None else set()
    miss = used - defined(tree)
    if miss:
        yield f"the interface uses {sorted(miss)} without defining them"


def strip(text):
    try:
        return without_docs(text)
    except SyntaxError:
        return text


def history(inp, out, source, kinds):
    """Problems of a history; kinds: the groups of guarantees looked at ('book', 'valid')."""
    if isinstance(out, Exc):
        yield f"the history itself failed: {out}"
        return
    state = {}
    modes = {}
    prev = (None, [], 0)
    for i, (s, (r, exp, snap)) in enumerate(zip(inp["steps"], out)):
        pyi, files, others = snap
        where = f"step {i + 1} ({s[0]}{' ' + repr(s[1]) if len(s) > 1 else ''}): "
        changed = (pyi, sorted(files)) != (prev[0], sorted(prev[1]))
        if others and "book" in kinds:
            yield where + "files were changed that have nothing to do with the hints"
        do = s[0]
        if do == "reset":
            state = {}
            if "book" in kinds:
                if isinstance(r, Exc):
                    yield where + str(r)
                if pyi is not None or files:
                    yield where + "hints are left over"
        elif do == "mode":
            modes[s[1]] = s[2]
            if "book" in kinds and sorted(files) != sorted(prev[1]):
                yield where + "changing the mode changes hints"
        elif do == "new":
            modes.pop(s[1], None)
            if "book" in kinds:
                if isinstance(r, Exc):
                    yield where + str(r)
                if sorted(files) != sorted(prev[1]):
                    yield where + "creating an instance changes hints"
        else:
            name, mode = s[1], modes.get(s[2], inp["inst"][s[2]][0])
            if not valid_name(name):
                if not isinstance(r, Exc) or "Error" not in r.kind:
                    yield where + "accepted as a class name"
                if changed:
                    yield where + "a refused name changes the files"
            elif isinstance(exp, Exc):
                if changed:
                    yield where + "failing changes the files"
            else:
                differs = name in state and strip(state[name]) != strip(exp)
                if mode == "validate" and differs:
                    if "valid" in kinds:
                        if not isinstance(r, Exc):
                            yield where + f"other hints exist ({state[name]!r}) than those of the data ({exp!r}), but validation passed"
                        elif r.kind != "LazyTypeHintLiveError":
                            yield where + f"validation fails with {r}"
                        if changed:
                            yield where + "failed validation changes the files"
                else:
                    if isinstance(r, Exc):
                        if "valid" in kinds or name not in state:
                            yield where + str(r)
                        return
                    if "book" in kinds:
                        if not r[1]:
                            yield where + f"does not return the data: {r[2]!r}"
                        if do == "data" and r[2] != s[3] and not hasattr(r[2], "__next__"):
                            yield where + "the data was changed"
                    state[name] = exp
                    got = dict(files).get(f"{name}.py")
                    if got is None or (strip(got) != strip(exp) if mode == "validate" else got != exp):
                        yield where + f"the hints written are not those of the data: {got!r}"
        names = set(state)
        if "book" in kinds:
            if {f for f, _ in files if not f.startswith("__pycache__") and (f != "__init__.py" or "__init__" in names)} != {f"{n}.py" for n in names}:
                yield where + f"the files are {[f for f, _ in files]}, the classes {sorted(names)}"
            for f, t in prev[1]:
                if do in ("data", "yaml") and f != f"{s[1]}.py" and dict(files).get(f) != t:
                    yield where + f"the hints in {f} changed"
            if names and pyi is None:
                yield where + "there is no interface file"
            elif pyi is not None:
                for x in interface(pyi, source, names):
                    yield where + x
        prev = (pyi, files, others)
