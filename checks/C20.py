import ast

from harness import specs
from harness.base import DataHarness, texts_in
from oracles.each import judge
from oracles.frames import describe, is_frame
from oracles.module import Bad, Module
from symx.data import Lazy, force
from symx.frames import SymFrame, SymSeries
from symx.runner import Exc
from symx.symstr import SymStr
from symx.uniform import uniform_source

from .C13 import problems as import_problems

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = (
    "frames of 1..4 columns and 1..2 rows of objects; labels: every printable text up to 2 characters, integers -1..2, bools, None, and tuples "
    "(1 to 3 levels, as many in every column, or plain labels), equal or different; alone, in lists, tuples and dictionaries with another frame; all pandas strategies"
)
ASSUMPTIONS = ["columns hold Python objects (dtype object); label text that is empty or NaN is outside the bounds"]
I, S, N = "int1", ["sym", 1, "PRINT"], "None"
T = ["sym", 1, "WORD"]


def F(*cols):
    return ["frame", *[list(c) for c in cols]]


def families(th):
    J = specs.J
    scal = ["any", I, "=x", N, "float1"]
    small = ["any", I, "=x"]
    lab = ["any", ["sym", 1, "PRINT"], "int", "bool", N]
    out = [
        J(F((["sym", 1, "PRINT"], [small]), (["sym", 1, "PRINT"], [scal])), p="*"),
        J(F((["sym", 2, "PRINT"], [scal])), p="*"),
        J(F((lab, [small]), (lab, [small])), p="*"),
        J(F((T, [small]), (T, [small]), (T, [small])), p="*"),
        J(F(("=a", [scal, scal, scal])), p="*", h="*"),
        J(F(("=a", [["any", ["list", I], ["dict", ["k", I]], ["list", "=x"]], scal])), p="Full type hint", h="*"),
        J(F(("=a", [I]), (["any", "=b", N, "float1"], [I]), ("=c", [I])), p="*"),
        # several levels
        J(F((["tuple", T, T], [small]), (["tuple", T, T], [I])), p="*"),
        J(F((["tuple", S, "=b"], [small]), (["tuple", S, "=c"], [I]), (["tuple", S, "=b"], [I])), p="Full type hint"),
        J(F((["tuple", "int", T], [small]), (["tuple", "int", "=a"], [I])), p="Full type hint"),
        J(F((["tuple", "bool", "int"], [small]), (["tuple", "bool", "int"], [I])), p="Full type hint"),
        J(F((["tuple", N, "int"], [small]), (["tuple", "=a", "int"], [I])), p="*"),
        J(F((["tuple", "=a", T, "=y"], [small]), (["tuple", "=a", T, "=x"], [I]), (["tuple", "=b", "=c", "=d"], [I])), p="*"),
        J(["any", F((["tuple", T], [small]), (["tuple", T], [small])), F((["tuple", T], [small]))], p="*"),
        # with other frames
        J(["list", F(("=a", [small]), (T, [I])), F(("=a", [small]), (T, [I]))], p="*"),
        J(["list", F((T, [small])), F((T, [small])), F(("=a", [I]))], p="*"),
        J(["list", F(("=a", [I]), ("=b", ["=x"])), F(("=b", ["=x"]), ("=a", [I]))], p="*"),
        J(["tuple", F((T, [small])), ["series", I, small], F((T, [small]))], p="*", t="*"),
        J(["dict", ["x", F((T, [small]))], ["y", F((T, [small]))], ["z", ["series", I]]], p="*", d="*"),
        J(["list", F((["any", "=a", "int", "bool"], [small])), F((["any", "=a", "int", "bool"], [small]))], p="*"),
        J(["list", ["series", scal, scal], ["series", scal], ["list", I]], p="Full type hint", h="*"),
        J(["series", scal, scal, scal], p="Full type hint", h="*"),
        J(["list", F(), F(("=a", [I]))], p="*"),
    ]
    # named whatever the height at which others are
    one = ["any", "=a", "int1", "bool", N, ["tuple", "=a", "=b"], ["tuple", "int1", "=b"], ["tuple", N, "=b"]]
    for kind in ("list", "tuple"):
        out.append(J([kind, F((one, [I]))], p="*", h="*", t="fixed"))
        out.append(J([kind, [kind, F((one, [I])), I]], p="*", h="*", t="fixed"))
    for op in ("dict", "proxy"):
        out.append(J([op, ["x", F((one, [I]))], ["y", ["list", F((one, [I]))]]], p="Full type hint", h="*", d="*"))
    out.append(J(F((["tuple", "=a", T], [I]), (["tuple", "=a", "=b"], [I])), p="Full type hint", h="*"))
    # tuples that are labels and no levels
    flat = ["flat", [["tuple", T, T], [small]], [["tuple", "=a", "=b"], [I]]]
    out += [J(flat, p="*"), J(["list", flat, F((["tuple", "=a", "=b"], [I]))], p="*", h="*"), J(["flat", [["tuple", "=a"], [I]]], p="*")]
    if th:
        out += [
            J(F((["tuple", "=a", T, T], [small]), (["tuple", "=a", T, "=x"], [I]), (["tuple", "=b", "=c", "=d"], [I])), p="*"),
            J(F((["sym", 3, "PRINT"], [scal])), p="*"),
            J(F((["sym", 2, "WORD"], [small]), (["sym", 2, "WORD"], [small])), p="*"),
            J(F((lab, [small]), (lab, [small]), (lab, [small])), p="*"),
            J(F(*[(T, [small]) for _ in range(4)]), p="Full type hint"),
            J(F(*[(["tuple", T, T], [small]) for _ in range(3)]), p="Full type hint"),
            J(["list", *[F((T, [small]), ("=a", [I])) for _ in range(3)]], p="*"),
            J(["dict", ["x", ["dict", ["y", F((T, [small]))]]], ["z", F((T, [small]))]], p="*", d="*"),
        ]
    return out


def labels(x, out=None):
    """Symbolic texts among the labels."""
    out = [] if out is None else out
    if isinstance(x, Lazy):
        return labels(x._resolve(), out)
    if type(x) is SymStr:
        out.append(x)
    elif type(x) is SymFrame:
        for y in x._labels:
            labels(y, out)
    elif type(x) in (list, tuple):
        for y in x:
            labels(y, out)
    elif getattr(type(x), "_symx_dict", False):
        for y in x.values():
            labels(y, out)
    return out


def frames_in(v):
    if is_frame(v):
        return [v]
    if isinstance(v, dict):
        v = list(v.values())
    return [y for x in v for y in frames_in(x)] if isinstance(v, (list, tuple)) else []


class Frames(DataHarness):
    name = "frames"

    def families(self, tier):
        return families(tier == "thorough")

    def settle(self, inp, out, p):
        force([inp["data"]])
        self.decide(inp, "pandas_strategies")
        keys = labels(inp["data"])
        for t in texts_in(out):
            uniform_source(t, keys)

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        st = inp.get("st_pandas_strategies", "Full type hint")
        try:
            m = Module(out)
            bad = m.undefined()
            if bad:
                yield f"{bad[0][1]} is used in {bad[0][0]} but not defined"
            yield from import_problems(out)
            yield from judge(m, ast.Name("X"), inp["data"], is_frame, lambda t, v: describe(m, t, v, st))
        except Bad as e:
            yield str(e)


HARNESSES = [Frames]
