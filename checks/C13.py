import ast
import importlib

from harness import specs
from harness.base import DataHarness
from oracles.module import Bad, Module
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = specs.ALL_DATA + "; moreover tuples with any subset of eleven kinds of values, and up to eighteen kinds at once (import lines shorter and longer than a line)"


def exists(module, name):
    try:
        m = importlib.import_module(module)
        return name is None or hasattr(m, name)
    except ImportError:
        return False


def problems(text):
    m = Module(text)
    seen = {}
    for mod, orig, as_ in m.import_order:
        bound = as_ or orig or mod
        if bound in seen:
            yield f"{bound} is imported twice"
        seen[bound] = True
        if not exists(mod, orig):
            yield f"there is no {orig or ''} in {mod}"
    used = m.used_names()
    for bound, (mod, orig) in m.imports.items():
        if mod != "__future__" and bound not in used and bound != "TypeAlias":
            yield f"{bound} is imported but not used"
    mods = [mod for mod, orig, as_ in m.import_order if orig]
    groups = [n.module for n in m.tree.body if isinstance(n, ast.ImportFrom)]
    if len(groups) != len(set(groups)):
        yield "one module is imported from in two places"
    if "__future__" in mods and groups[0] != "__future__":
        yield "the import from __future__ does not come first"
    body = [n for n in m.tree.body if not isinstance(n, (ast.Import, ast.ImportFrom))]
    if body and any(n.lineno > body[0].lineno for n in m.tree.body if isinstance(n, (ast.Import, ast.ImportFrom))):
        yield "an import follows a declaration"


class Imports(DataHarness):
    name = "imports"

    def families(self, tier):
        out = specs.all_data(tier) + specs.fam_imports()
        i = "int1"
        opt = lambda *k: ["any", i, *k]  # noqa: E731
        base = [["list", i], ["set", i], ["frozenset", i], ["dict", [["k", i], i]]]
        more = [opt(["dict", ["a", i]]), opt("obj:lam2"), opt("None"), opt(["iter", i]), opt("obj:int"), opt(["set", i, "str"])]
        out.append(specs.J(["tuple", *base, *more], l="*", t="any size"))
        out.append(specs.J(["dict", *[[chr(97 + n), x] for n, x in enumerate(base + more)]], d="*", h=0))
        out.append(specs.J(["list", ["dict", ["a", i], ["b?", opt("obj:arr_i")], ["c", opt("obj:math")]], ["dict", ["a", i], ["c", i]], opt("obj:f1")], r="*", m=1))
        # nearly everything at once
        most = [*base, ["tuple", i], "obj:Foo", "None", ["iter", i], "obj:len", "obj:f1", "obj:textio", "obj:bytesio", ["proxy", ["a", i]], ["list"], ["list", "int1", "str"]]
        for some in (most, most[4:], most[:9]):
            out.append(specs.J(["list", *some, ["dict", ["a", i], ["b?", i]], ["dict", ["a", i], ["c?", "str"]], opt("obj:math"), opt("obj:arr_i"), opt(["frame", ["=a", ["int1"]]])], l="*", d="*", r="*"))
            out.append(specs.J(["dict", *[[chr(97 + n), x] for n, x in enumerate(some)], ["z", opt(["series", i])]], d="*", h=0))
        out.append(specs.J(["any", ["frame"], ["frame", ["=a", ["int1"]]], ["frame", ["float1", ["int1"]]], ["frame", [["tuple", "int1", "=b"], ["int1"]], [["tuple", "float1", "=b"], ["int1"]]]], p="*"))
        out.append(specs.J(["list", ["any", ["frame"], ["frame", ["float1", ["int1"]]], ["flat", [["tuple", "=a", "=b"], ["int1"]]], i], ["any", ["frame"], "str", "obj:lam2"]], p="*", h="*"))
        return out

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        try:
            yield from problems(out)
        except Bad as e:
            yield str(e)


HARNESSES = [Imports]
