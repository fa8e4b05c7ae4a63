import ast
import types

from harness import specs
from harness.base import DataHarness
from oracles.flow import Spelling
from oracles.module import Bad, Module
from symx.containers import SDict
from symx.data import open_, parts
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = specs.ALL_DATA + "; moreover every kind of container next to and inside of every other one with all strategies open"


class Spelled(DataHarness):
    name = "spelling"

    def families(self, tier):
        js = specs.all_data(tier)
        js += specs.fam_spelling()
        return js

    def settle(self, inp, out, p):
        super().settle(inp, out, p)
        kinds = {type(x) for x in parts(inp["data"])}
        self.decide(inp, *[n for n, ts in (("list_strategy", {list}), ("tuple_size_strategy", {tuple}), ("dict_strategy", {SDict, types.MappingProxyType})) if kinds & ts])

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            return
        try:
            m = Module(out)
            s = Spelling(m, inp.get("st_list_strategy", "list"), inp.get("st_tuple_size_strategy", "fixed"),
                         inp.get("st_dict_strategy", "TypedDict"))
            if not s.ok(ast.Name(self.cn(inp)), inp["data"]):
                yield "a container is not spelled as its type and the strategies say"
        except Bad:
            return


HARNESSES = [Spelled]
