import ast

from harness import specs
from harness.base import DataHarness
from oracles.flow import members, resolve
from oracles.module import Bad, Module, sub
from symx.data import SymIter, force
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = (
    "two to four dictionaries (three with three optional keys each thorough) in lists, tuples and iterators, up to six keys with any presence pattern, plus pairs of dictionaries (up to 100 keys) that share each whole percentage of their keys; values of up to seven types; "
    "anything else before, between and after them; every similarity threshold 1..100"
)


def signature(v):
    """The type a dictionary or plain value has on its own."""
    if type(v) is dict:
        return ("dict", frozenset((k, signature(x)) for k, x in v.items()))
    if type(v) in (list, set, frozenset):
        return (type(v).__name__, frozenset(signature(x) for x in v))
    if type(v) is tuple:
        return ("tuple", tuple(signature(x) for x in v))
    return type(v).__name__


def class_form(d):
    """A dictionary that becomes a TypedDict."""
    return type(d) is dict and all(type(k) is str for k in d)


def mergeable(dicts, m):
    common = set.intersection(*[set(d) for d in dicts])
    total = set.union(*[set(d) for d in dicts])
    if not total or 100 * len(common) < m * len(total):
        return False
    return all(len({signature(d[k]) for d in dicts if k in d}) == 1 for k in total)


def items(data):
    data = force(data)
    return [force(d) for d in (data.items if isinstance(data, SymIter) else data)]


class Merging(DataHarness):
    """Dictionaries of one sequence share a TypedDict exactly when similar enough and type-compatible."""

    name = "merging"

    def families(self, tier):
        return specs.fam_sim(tier == "thorough")

    def settle(self, inp, out, p):
        """Every threshold on one side of the exact share of common keys only."""
        super().settle(inp, out, p)
        key = "st_merge_different_typed_dicts_if_similarity_above"
        dicts = [set(d) for d in items(inp["data"]) if getattr(type(d), "_symx_dict", False) and all(type(k) is str for k in d)]
        if key in inp and dicts and set.union(*dicts):
            bool(100 * len(set.intersection(*dicts)) < inp[key] * len(set.union(*dicts)))

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        try:
            m = Module(out)
            kind, t = resolve(m, ast.Name("X"))
            h, a = sub(t)
            data = list(inp["data"])
            got = set()
            for x in a:
                for alt in members(m, x):
                    k, d = resolve(m, alt)
                    if k == "td":
                        got.add(d.name)
        except (Bad, AttributeError) as e:
            yield f"unreadable: {e}"
            return
        dicts = [d for d in data if class_form(d)]
        if not dicts:
            return
        pct = inp["st_merge_different_typed_dicts_if_similarity_above"] if "st_merge_different_typed_dicts_if_similarity_above" in inp else 50
        want = 1 if mergeable(dicts, pct) else len({signature(d) for d in dicts})
        if len(got) != want:
            yield f"{len(got)} TypedDict(s) for the dictionaries, {want} expected at threshold {pct}"

    def nontrivial(self, inp, out, p):
        return len([d for d in inp["data"] if class_form(d)]) > 1


HARNESSES = [Merging]
