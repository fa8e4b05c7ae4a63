from harness import specs
from harness.base import DataHarness
from oracles.module import Bad, Module, admits
from symx.runner import Exc
import ast

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = specs.ALL_DATA


class Soundness(DataHarness):
    name = "soundness"

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        try:
            m = Module(out)
            if not admits(m, ast.Name(self.cn(inp)), inp["data"]):
                yield "the declared type does not admit the data"
        except Bad as e:
            yield str(e)


HARNESSES = [Soundness]
