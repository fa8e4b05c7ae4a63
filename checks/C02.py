from harness import specs
from harness.base import DataHarness
from oracles.module import Bad, Module
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = specs.ALL_DATA


class WellFormed(DataHarness):
    name = "wellformed"

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        try:
            m = Module(out)
        except Bad as e:
            yield str(e)
            return
        for w, n in m.undefined():
            yield f"{w} uses {n}, which is neither imported nor declared before"
        if m.redeclared:
            yield f"declared more than once: {m.redeclared}"
        if not m.order or m.order[-1] != self.cn(inp):
            yield f"{self.cn(inp)} is not the last declaration: {m.order}"
        if m.stray:
            yield "text outside of the declarations"
        for n, (k, d) in m.decls.items():
            if k == "td" and d.dups:
                yield f"{n} declares a key twice: {d.dups}"


HARNESSES = [WellFormed]
