import ast

from harness import specs
from harness.base import DataHarness
from oracles.flow import expand
from oracles.module import Bad, Module
from symx.runner import Exc, guarded

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = ("dictionaries with the documentation key absent, text (up to 2 symbolic characters) or another value, at up to three levels, in lists, tuples, iterators and proxies, "
          "class and functional syntax, every dictionary strategy, read-only, alias height and similarity threshold; documentation key named in the strategies or not")

T = ["any", ["text", "one ", [1, "ab "]], "int", "None"]
T2 = ["any", "=two words.", ["list", "=no"]]


def fams(th):
    J = specs.J
    i = "int1"
    out = []
    out.append(J(["dict", ["doc?", T], ["a", ["dict", ["doc?", T2], ["b?", "int"]]], ["c?", "str"]], d="*", r="*"))
    out.append(J(["dict", ["a", i], ["b c?", i], ["doc?", ["any", "=one", "=Two.\n\nthree \"\"\"q"]], ["d", ["dict", ["doc?", "=three"], ["e", i]]]], h="*"))
    out.append(J(["list", ["dict", ["doc?", "=one"], ["a", i], ["b?", i]], ["dict", ["doc?", "=two"], ["a", i]], ["any", i, ["dict", ["doc", "=three"], ["c", i]]]], m=[1, 40, 60, 100] and "*"))
    out.append(J(["tuple", ["dict", ["doc?", "=one"], ["a", i]], ["dict", ["doc?", "=two"], ["a", i]], ["dict", ["a", ["any", i, "=x"]]]], t="*", r="*"))
    out.append(J(["proxy", ["doc?", "=one"], ["a", ["iter", ["dict", ["doc?", T2], ["a", i]], ["any", i, ["list", ["dict", ["doc", "=deep"]]]]]]], l="*"))
    out.append(J(["dict", ["doc", T], ["___x", i], ["n", ["dict", ["doc", T2], ["n", ["dict", ["doc?", "=leaf"]]]]]], h="*"))
    out.append(J(["dict", [["k", i], ["dict", ["doc?", "=one"], ["a", i]]], ["doc?", "=top"]], d="*"))
    out.append(J(["list", *[["dict", ["doc?", f"={w}"], ["a?", i], ["b?", i]] for w in ("one", "two", "three")]], m="*"))
    out.append(J(["dict", *[[f"{k}?", ["dict", ["doc?", f"={k}{k}"], ["a", ["any", i, "str"]]]] for k in "pqr"], ["doc?", "=top"]], h="*", r="*"))
    # at depth, in every syntax
    out.append(J(["dict", ["x", ["dict", ["y z", ["dict", [["any", "=a", "=b c"], i], ["doc?", "=deep"]]], ["doc?", "=mid"]]], ["doc?", "=top"]]))
    return out


def opened(m):
    for kind, d in m.decls.values():
        if kind == "td":
            d.said, d.doc = d.doc, None
    return expand(m, ast.Name("X")), m.imports


def dicts(v, out):
    if isinstance(v, dict):
        out.append(v)
        for x in v.values():
            dicts(x, out)
    elif type(v).__name__ == "mappingproxy":
        for x in v.values():
            dicts(x, out)
    elif isinstance(v, (list, tuple, set, frozenset)) or hasattr(v, "__next__"):
        import copy

        for x in copy.copy(v):
            dicts(x, out)
    return out


class Documented(DataHarness):
    """Naming a documentation key adds docstrings and nothing else."""

    name = "documented"

    def families(self, tier):
        return fams(tier == "thorough")

    def run(self, L, inp, p):
        out = []
        for i, k in enumerate(("", "doc", "unknown")):
            st = {n[3:]: v for n, v in inp.items() if n.startswith("st_")}
            m = L[""]
            data = inp["data"] if i == 0 else inp[f"data{i}"]
            out.append(guarded(lambda: m.LazyTypeHint(m.ParsingStrategies(key_used_as_doc=k, **st)).from_data(data, class_name="X").to_string()))
        return out

    def build(self, p):
        inp = super().build(p)  # iterators are used up: one copy for each run
        for i in (1, 2):
            inp[f"data{i}"] = specs.node("d", p["data"])
        return inp

    def oracle(self, inp, out, p, L):
        plain, doc, other = out
        if any(isinstance(x, Exc) for x in out):
            yield f"no hints for valid data: {out}"
            return
        if '"""' in plain:
            yield "documentation although no key was named"
        if other != plain:
            yield "a documentation key that is in no dictionary changes the hints"
        try:
            p0, m = Module(plain), Module(doc)
            if opened(p0) != opened(m):
                yield f"the types differ from those without documentation, which are {plain!r}"
                return
        except (Bad, SyntaxError) as e:
            yield str(e)
            return
        if m.stray:
            yield f"documentation {m.stray} of nothing"
        tds = [d for kind, d in m.decls.values() if kind == "td"]
        ds = dicts(inp["data"], [])
        for td in tds:
            if any(td.docs.values()):
                yield "a field is documented"
            mine = [d for d in ds if set(d) <= set(td.fields) and all(k in d for k, (_, req, _r) in td.fields.items() if req)]
            texts = [d["doc"] for d in mine if "doc" in d]
            strs = [t for t in texts if isinstance(t, str)]
            if td.said is None:
                # shared with a dictionary that is documented: all of those agree on there being a text
                if strs and len(strs) == len(mine) and "doc" in td.fields:
                    yield f"{td.name} has no documentation although its dictionaries say {strs}"
            elif not any(td.said.replace(".", "").split() == t.replace(".", "").split() for t in strs):
                yield f"{td.name} is documented as {td.said!r}, its dictionaries say {texts}"
        for d in ds:
            if isinstance(d.get("doc"), str) and all(isinstance(k, str) for k in d):
                if tds and not any(td.said for td in tds):
                    yield f"the documentation {d['doc']!r} is nowhere"
                    break


HARNESSES = [Documented]
