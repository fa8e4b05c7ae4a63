import io
import types

from harness import specs
from harness.base import DataHarness
from symx.core import Proxy
from symx.containers import SDict, SFrozenSet, SSet
from symx.data import open_, parts
from symx.runner import Exc, guarded

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = "frames of up to 3 columns with one or two levels of labels in any order and rows with or without labels of their own, series; nested data of the families merge, dictdict, max, keys, documented, objects, imports (no iterators: reading one consumes it), up to 5 elements per container and depth 4; every element limit, merge threshold and dict strategy of those families"


def snap(x):
    """The content of a value, containers in order."""
    x = open_(x)
    t = type(x)
    if isinstance(x, io.IOBase):
        return ["file", x.tell()]
    if isinstance(x, (list, tuple)):
        return [t.__name__, *[snap(e) for e in x]]
    if t is SDict or isinstance(x, (dict, types.MappingProxyType)):
        return ["proxy" if t is types.MappingProxyType else "dict", *[[snap(k), snap(x[k])] for k in x.keys()]]
    if t in (SSet, SFrozenSet, set, frozenset):
        return ["set", x.copy()]
    if t.__name__ in ("Series", "SymSeries"):
        return ["series", *[snap(e) for e in x.tolist()]]
    if t.__name__ in ("DataFrame", "SymFrame"):
        x = x.__dict__.get("_real_") if isinstance(x, Proxy) and x.__dict__.get("_real_") is not None else x
        return ["frame", list(x.index), [snap(c) for c in x.columns], [snap(c) for _, c in x.items()]]
    if t.__name__ == "ndarray":
        return ["array", str(x.dtype), x.tolist()]
    return x


def inside(data):
    """What objects other than containers carry: the attributes of callables, instances and classes."""
    out = []
    for x in parts(data):
        for y in (getattr(x, "__func__", x), type(x)):
            if isinstance(y, Proxy) or isinstance(getattr(y, "__dict__", None), types.MappingProxyType) and isinstance(y, type) and not y.__flags__ & 1 << 9:
                continue  # nothing that could carry more
            d = getattr(y, "__dict__", None)
            if d is not None and str(getattr(y, "__module__", "")).partition(".")[0] not in ("symx", "pandas", "numpy", "io", "abc"):
                out.append((y, {k: v for k, v in d.items() if k not in ("__abstractmethods__", "_abc_impl", "__weakref__")}))
    return out


def restored(carried):
    """Whether nothing changed; what did is undone, as the objects are used again."""
    same = True
    for y, d in carried:
        now = dict(y.__dict__)
        for k in now:
            if k not in d and not k.startswith("__abstract") and k not in ("_abc_impl", "__weakref__"):
                same = False
                delattr(y, k)
        for k, v in d.items():
            if k not in now or now[k] is not v:
                same = False
                setattr(y, k, v)
    return same


def fam_documented():
    out = []
    v = ["any", "int1", "str", ["list", "int1"]]
    pre = "___docstring_hidden_key_"
    for k in ("", "doc"):
        for d in (["dict", ["doc?", ["any", "str", "int1"]], ["a", v], [pre + "a?", ["any", "str", "None"]]],
                  ["dict", ["b c", v], ["doc", "str"], [pre + "b c?", "str"]],
                  ["list", ["dict", ["doc?", "str"], ["a", "int1"]], ["dict", ["doc", "str"], ["a", "int1"], [pre + "a", "str"]]]):
            out.append(specs.J(d, k=k, d="*"))
        for n in ("ddict", "odict", "ddict1"):
            out.append(specs.J(["list", "obj:" + n, ["dict", ["doc?", "str"], ["a", "int1"]], "obj:" + n], k=k, d="*"))
    return out


class Untouched(DataHarness):
    """Generating hints changes neither the data nor any object in it."""

    name = "untouched"

    def families(self, tier):
        js = specs.fam_merge() + specs.fam_dictdict() + specs.fam_max(tier == "thorough") + fam_documented() + specs.fam_imports() + specs.fam_objects()
        if tier == "thorough":
            js += specs.fam_keys() + specs.fam_nested() + specs.fam_heights() + specs.fam_td() + specs.fam_spelling() + specs.fam_sim()
        T = ["sym", 1, "WORD"]
        js += [
            specs.J(["frame", [["tuple", T, T], ["int1"]], [["tuple", T, "=b"], ["=x"]], [["tuple", T, "=a"], ["int1"]]], p="*"),
            specs.J(["list", ["frame", [T, ["int1", "str"]], [T, ["int1", "None"]], [["any", T, "int1"], ["int1", "int1"]]], ["series", "int1", "str", "int1"]], p="*"),
            specs.J(["dict", ["a", ["flat", [["tuple", T, T], ["int1"]], ["=x", ["int1"]]]], ["b", ["series", ["list", "int1"], ["dict", ["k", "int1"]]]]], p="*"),
        ]
        js += [specs.J(["rows", rows, ["frame", ["=a", ["int1", "str"]], [T, ["int1", "None"]]]], p="*") for rows in ([5, 5], ["x", "y"], [2, 1])]
        return [j for j in js if "'iter'" not in repr(j)]

    def run(self, L, inp, p):
        data = inp["data"]
        before, carried = parts(data), inside(data)
        st = self.strategies(L, inp)
        r = guarded(lambda: L[""].LazyTypeHint(st).from_data(data, class_name="X").to_string())
        after = parts(data)
        same = len(before) == len(after) and all(a is b for a, b in zip(before, after))
        return [snap(data), same, type(r) is Exc, restored(carried)]

    def settle(self, inp, out, p):
        from symx.data import force

        force([inp["data"]])

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"unexpected {out}"
            return
        now, same, _, carried = out
        if now != snap(inp["data"]) or repr(now) != repr(snap(inp["data"])):
            yield "the data is not what it was before the hints were generated"
        elif not same:
            yield "some object within the data was replaced"
        elif not carried:
            yield "the attributes of some object within the data are not what they were"


HARNESSES = [Untouched]
