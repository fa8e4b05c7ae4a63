import builtins
import keyword
import unicodedata

from harness import specs
from harness.base import DataHarness, texts_in
from oracles.module import Bad, Module
from symx import data as D
from symx.data import force
from symx.runner import Exc
from symx.uniform import uniform_source
from symx.symstr import SymStr

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = "class names of every length 0..5 (7 thorough) over all of Latin-1, lengths up to 9 over lower-case letters (keywords); data of seven shapes"

SHAPES = {
    "int": "int", "list": ["list", "int1"], "dict": ["dict", ["a", "int1"], ["b", ["dict", ["c", ["list", "int1"]]]]],
    "functional": ["dict", ["a b", "int1"], ["c", ["tuple", "int1"]]], "function": "obj:f1", "none": "None", "obj": "obj:foo",
}


class ClassName(DataHarness):
    name = "class_name"

    def jobs(self, tier):
        th = tier == "thorough"
        js = []
        for n in range(0, 8 if th else 6):
            js.append({"n": n, "dom": "ANY", "data": "dict"})
        for n in range(2, 12 if th else 10):
            js.append({"n": n, "dom": "LOWER", "data": "dict"})
        for n in range(4, 6):
            js.append({"n": n, "dom": "LETTER", "data": "list"})
        for s in SHAPES:
            for n in (1, 2, 3) if th else (2,):
                js.append({"n": n, "dom": "ANY", "data": s})
                js.append({"n": n + 2, "dom": "_a", "data": s})
                js.append({"n": n + 1, "dom": "IDENT", "data": s})
        return js

    def build(self, p):
        return {"data": specs.node("d", SHAPES[p["data"]]), "name": D.sym_str("name", p["n"], specs.DOMS[p["dom"]])}

    def run(self, L, inp, p):
        return L[""].LazyTypeHint().from_data(inp["data"], class_name=inp["name"]).to_string()

    def settle(self, inp, out, p):
        force([inp["data"]])
        n = inp["name"]
        if type(n) is SymStr:
            if n.isidentifier():
                for k in keyword.kwlist:
                    if len(k) == len(n):
                        bool(n == k)
                if p["dom"] != "ANY" or len(n) < 3:
                    for t in texts_in(out):
                        uniform_source(t, [n])

    def oracle(self, inp, out, p, L):
        n = inp["name"]
        if not n.isidentifier() or keyword.iskeyword(n):
            if not isinstance(out, Exc):
                yield f"{n!r} is no name for a class, but hints were generated"
            elif "LazyTypeHintError" not in out.mro:
                yield f"{n!r} is refused with {out.kind}"
            return
        if isinstance(out, Exc):
            yield f"{n!r} is a valid name for a class, but {out}"
            return
        try:
            m = Module(out)
            if n in m.imports or hasattr(builtins, n):
                return  # the hints need that name themselves
            if not m.order or m.order[-1] != unicodedata.normalize("NFKC", n):
                yield f"the last declaration is not {n!r}"
            for where, name in m.undefined():
                yield f"{where} uses {name}, which is not defined"
            exec(compile(out, "<generated>", "exec", dont_inherit=True), {"__name__": "generated"})
        except Bad as e:
            yield str(e)
        except Exception as e:  # noqa: BLE001
            yield f"the module cannot be imported: {e!r}"


HARNESSES = [ClassName]
