import types

from harness import specs
from harness.base import DataHarness, shape
from symx.containers import SDict, SFrozenSet, SSet
from symx.data import Lazy, SymIter
from symx.frames import SymFrame, SymSeries
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = (
    "containers of up to 4 elements (5 thorough) of every kind, Series and frame columns, alone, in and around each other up to five levels, limits 1..4 (5 thorough) and None; "
    "of 501 elements and limits 499..501; every tuple, list and dictionary strategy"
)


def cut(x, n, dicts):
    """The data with every container that has a limit cut to its first n elements."""
    while isinstance(x, Lazy):
        x = x._resolve()
    t = type(x)
    if t is list:
        return [cut(e, n, dicts) for e in x[:n]]
    if t is tuple:
        return tuple(cut(e, n, dicts) for e in x[:n])
    if t in (SSet, SFrozenSet, set, frozenset):
        return t([cut(e, n, dicts) for e in list(x)[:n]])
    if t is types.MappingProxyType:
        return types.MappingProxyType((SDict if type(x | {}) is SDict else dict)([(k, cut(v, n, dicts)) for k, v in list(x.items())[:n]]))
    if t is SDict or t is dict:
        items = list(x.items())
        if dicts:
            items = items[:n]
        return t([(k, cut(v, n, dicts)) for k, v in items])
    if t is SymIter:
        return SymIter([cut(e, n, dicts) for e in x.items[:n]])
    if t is SymSeries:
        return SymSeries([cut(e, n, dicts) for e in x._items[:n]])
    if t is SymFrame:
        return SymFrame(x._labels, [[cut(e, n, dicts) for e in c[:n]] for c in x._cols])
    if t.__module__.startswith("pandas."):
        return x.head(n)
    if t is type(iter([])):
        import copy

        return iter([cut(e, n, dicts) for e in list(copy.copy(x))[:n]])
    return x


class MaxElements(DataHarness):
    name = "max_elements"

    def families(self, tier):
        return specs.fam_max(tier == "thorough")

    def run(self, L, inp, p):
        S = L[""].ParsingStrategies
        T = L[""].LazyTypeHint
        st = {k[3:]: v for k, v in inp.items() if k.startswith("st_")}
        n = st.pop("check_max_n_elements_within_container")
        while isinstance(n, Lazy):
            n = n._resolve()
        short = inp["data"]
        short = cut(short, 9999 if n is None else n.__index__(), bool(st.get("dict_strategy", "TypedDict") != "TypedDict"))
        one = T(S(check_max_n_elements_within_container=n, **st)).from_data(inp["data"], class_name="X").to_string()
        two = T(S(check_max_n_elements_within_container=None, **st)).from_data(short, class_name="X").to_string()
        return [one, two]

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        if out[0] != out[1] and not ("Set[" in out[0] and shape(out[0], "X") == shape(out[1], "X")):
            yield "the hints are not those of the data cut to the first n elements"


HARNESSES = [MaxElements]
