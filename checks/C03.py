from harness import specs
from harness.base import DataHarness
from oracles.module import Bad, Module, tight
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = specs.ALL_DATA


class Precision(DataHarness):
    name = "precision"

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            return
        try:
            yield from tight(Module(out), self.cn(inp), [inp["data"]])
        except Bad:
            return


HARNESSES = [Precision]
