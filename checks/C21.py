import ast

from harness import specs
from harness.base import DataHarness
from oracles.callables import describe, is_callable
from oracles.each import judge
from oracles.module import Bad, Module, admits
from symx.runner import Exc

from .C13 import problems as import_problems

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = (
    "functions, bound methods, coroutine functions, generators and lambdas of up to 3 parameters (4 thorough) of every kind, parameter names any lower case "
    "letter (2 letters thorough), 17 annotations, 15 default values, 10 bodies, source at hand or not, on their own or wrapped by another (`functools.wraps`); alone and next to each other in lists, "
    "tuples and dictionaries"
)
ASSUMPTIONS = ["annotations, default values and bodies are taken from lists (checks/C21.py)"]

ANN = ["", "int", "List[int]", "Optional[str]", "Dict[str, Any]", "'Foo'", "Foo", "Callable[[int], str]", "list[int]", "int | None",
       "Union[int, 'Foo']", "Literal['a', 1]", "None", "Type[int]", "Iterator[Sequence[int]]", "TextIO", "Literal['->']"]
FEW = ["", "int", "Optional[Foo]", "List[Any]", "'List[int]'"]
DEF = ["1", "'x'", "None", "Foo()", "(1, 2)", "[]", "float('inf')", "int", "{'a': \"it's\"}", "-1", "'->'", "'a=b'", "...", "'#: '", "'\"\"\"'"]
BODY = ["pass", "return 1", "return", "yield 1", "def g():\n    return 1", "if 1:\n    return 2\nelse:\n    return", "'return'", "x = lambda: 1",
        "for i in []:\n    with open(i):\n        return i", "x = yield"]
OUTER = ["", "def outer(*args, **kwargs):\n    return 1", "def outer(*args):\n    pass", "async def outer(*args):\n    return 1", "async def outer(a):\n    pass",
         "def outer(*args):\n    yield 1"]
K1 = [["PO"], ["PK"], ["VP"], ["KO"], ["VK"]]
K2 = [["PO", "PO"], ["PO", "PK"], ["PK", "PK"], ["PK", "VP"], ["PK", "KO"], ["PO", "KO"], ["PO", "VK"], ["VP", "KO"], ["VP", "VK"], ["KO", "KO"], ["KO", "VK"]]
K3 = [["PO", "PK", "KO"], ["PO", "VP", "KO"], ["PK", "VP", "VK"], ["PK", "KO", "VK"], ["PO", "PO", "PK"], ["VP", "KO", "VK"], ["PK", "PK", "PK"]]


def fn(**k):
    return ["func", k]


def families(th):
    J = specs.J
    out = [
        J(fn(kinds=[[]], ret=ANN, body=["pass", "return 1"])),
        J(fn(kinds=[[], ["PK"]], body=BODY, **{"async": [False, True]}, source=[True, False])),
        J(["list", fn(kinds=[["PK"]], body=["pass", "return 1"], **{"def": DEF[-5:]}), fn(kinds=[["PK"]], body=["pass", "return 1"], **{"def": DEF[-5:]})]),
        J(fn(kinds=[["PK"]], body=BODY, wrap=["", "method"], ret=["", "int"])),
        J(fn(kinds=K1, ann=ANN, **{"def": ["1"]})),
        J(fn(kinds=K1, ann=["", "int"], **{"def": DEF})),
        J(fn(kinds=K2, ann=["", "int"], **{"def": ["1", "Foo()"]}, wrap=["", "method"])),
        J(fn(kinds=K3, **{"def": ["None"]}, ret=["", "int"])),
        J(fn(kinds=[["PK", "PK"]], ann=FEW, ret=FEW, **{"def": []})),
        J(fn(kinds=[["PK", "PK"]], names=[["a", "self", "Any", "List", "int"], ["b", "Optional", "key"]], ann=["", "List[Any]"], **{"def": []})),
        J(fn(kinds=[[], *K1, *K2, *K3], name="<lambda>", **{"def": ["1"]})),
        # wrapped with `functools.wraps`
        J(fn(kinds=[[], ["PK"], ["VP", "KO"]], body=["pass", "return 1", "yield 1"], ret=["", "int"], **{"async": [False, True]}, outer=OUTER, source=[True, False])),
        J(["list", fn(kinds=[["PK"]], body=["pass", "return 1"], outer=OUTER, **{"async": [False, True], "def": []}), fn(kinds=[["PK"]], body=["pass", "return 1"], outer=["", OUTER[3]], **{"def": []})]),
        # told apart, or not
        J(["list", fn(kinds=[["PK"]], **{"def": ["1", "2"]}), fn(kinds=[["PK"]], **{"def": ["1", "'1'"]})]),
        J(["list", fn(kinds=K1, **{"def": []}), fn(kinds=K1, **{"def": []})]),
        J(["list", fn(kinds=[[], ["PK"]], body=["pass", "return 1"], **{"async": [False, True]}), fn(kinds=[[]], body=["pass", "return 1"], **{"async": [False, True]})]),
        J(["list", fn(kinds=[["PK"]], ann=FEW, **{"def": []}), fn(kinds=[["PK"]], ann=FEW, **{"def": []})]),
        J(["list", fn(kinds=[[]], ret=FEW), fn(kinds=[[]], ret=FEW, body=["pass", "return 1"])]),
        J(["list", fn(kinds=[[], ["PK"], ["PK", "VK"]], name="<lambda>", **{"def": []}), fn(kinds=[[], ["KO"]], name="<lambda>", **{"def": []}), "obj:len"]),
        J(["dict", ["x", fn(kinds=[["PK"]], **{"def": []})], ["y", fn(kinds=[["PK"]], ret=["", "int"], **{"def": []})], ["z", ["any", "obj:lam0", "obj:f1"]]], d="*"),
        J(["tuple", fn(kinds=[["PK"]], ann=["", "'Foo'", "Foo"], **{"def": []}), ["any", "obj:f1", "obj:f2", "obj:f3", "obj:len"], fn(kinds=[["PK"]], ann=["", "Foo"], **{"def": []})], t="*"),
        J(["list", ["any", "obj:cm", "obj:sm", "obj:bm", "obj:meth"], ["any", "obj:len", "obj:cm", "obj:sm", "obj:lam0", "obj:f1"]], l="*"),
        J(["any", "obj:cm", "obj:sm", "obj:bm", "obj:meth", "obj:len", "obj:print", "obj:fromkeys"]),
    ]
    if th:
        out += [
            J(fn(kinds=K2, ann=ANN, **{"def": ["1"]})),
            J(fn(kinds=K3, ann=["", "int"], **{"def": ["1", "Foo()"]}, wrap=["", "method"], ret=["", "Foo"])),
            J(fn(kinds=K2, ann=["", "int"], **{"def": DEF})),
            J(fn(kinds=[["PO", "PK", "KO", "VK"], ["PK", "PK", "VP", "KO"], ["PO", "PO", "KO", "KO"]], ann=["", "Foo"], **{"def": ["1"]})),
            J(fn(kinds=K2, len=2, **{"def": ["1"]})),
            J(["list", fn(kinds=K2, **{"def": []}), fn(kinds=K2, **{"def": []})]),
            J(["list", fn(kinds=[["PK"]], ann=ANN, **{"def": []}), fn(kinds=[["PK"]], ann=ANN, **{"def": []})]),
            J(["list", *[fn(kinds=[["PK"]], ann=["", "int"], ret=["", "None"], body=["pass", "return 1"], **{"def": []}) for _ in range(3)]]),
            J(["dict", ["x", fn(kinds=K1, **{"def": ["1"]})], ["y", fn(kinds=K1, **{"def": ["1"]})]], d="*"),
        ]
    return out


class Callables(DataHarness):
    name = "callables"

    def families(self, tier):
        return families(tier == "thorough")

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        try:
            m = Module(out)
            bad = m.undefined()
            if bad:
                yield f"{bad[0][1]} is used in {bad[0][0]} but not defined"
            yield from import_problems(out)
            yield from judge(m, ast.Name("X"), inp["data"], is_callable, lambda t, v: describe(m, t, v) if is_callable(v) or not admits(m, t, v) else [], exclusive=False)
        except Bad as e:
            yield str(e)


HARNESSES = [Callables]
