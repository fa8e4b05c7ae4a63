"""Harnesses over the public hint-generation API."""
from __future__ import annotations

import ast

from symx.core import SymBool, eng
from symx.data import Lazy, force
from symx.runner import Exc, Harness, guarded
from symx.symstr import SymStr
from symx.uniform import uniform_source

from oracles.flow import expand
from oracles.module import Module

from . import specs


def texts_in(x, out=None):
    out = [] if out is None else out
    if type(x) is SymStr:
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            texts_in(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            texts_in(y, out)
    return out


def sym_keys(x, out=None, depth=8):
    """Symbolic strings that occur as mapping keys."""
    from symx.data import Lazy

    out = [] if out is None else out
    if depth == 0:
        return out
    if isinstance(x, Lazy):
        return sym_keys(x._resolve(), out, depth)
    if getattr(type(x), "_symx_dict", False) or type(x).__name__ == "mappingproxy":
        for k, v in x.items():
            if type(k) is SymStr:
                out.append(k)
            sym_keys(v, out, depth - 1)
    elif type(x) in (list, tuple):
        for v in x:
            sym_keys(v, out, depth - 1)
    return out


def shape(text, root):
    m = Module(text)
    return expand(m, ast.Name(root)), m.imports


class DataHarness(Harness):
    """data + strategies -> module text through LazyTypeHint."""

    name = "hints"
    class_name = "X"

    def families(self, tier):
        return specs.all_data(tier)

    def jobs(self, tier):
        return self.families(tier)

    def build(self, p):
        inp = {"data": specs.node("d", p["data"])}
        if "cn" in p:
            inp["cn"] = specs.node("cn", p["cn"])
        for k, v in specs.strat(p.get("st", {})).items():
            inp["st_" + k] = v
        return inp

    def strategies(self, L, inp):
        return L[""].ParsingStrategies(**{k[3:]: v for k, v in inp.items() if k.startswith("st_")})

    def run(self, L, inp, p):
        return L[""].LazyTypeHint(self.strategies(L, inp)).from_data(inp["data"], class_name=inp.get("cn", self.class_name)).to_string()

    def decide(self, inp, *names):
        """Values of strategies the result has to follow, even where the code never asked for them."""
        for n in names:
            v = inp.get("st_" + n)
            while isinstance(v, Lazy):
                v = v._resolve()
            if type(v) is SymBool:
                bool(v)

    def cn(self, inp):
        return inp.get("cn", self.class_name)

    def same(self, a, b):
        """Equal text; the order in which sets are walked may number the aliases differently."""
        if a == b:
            return True
        try:
            if type(a) is type(b) is str:
                return a.count("\n") == b.count("\n") and ("Set[" in b) and shape(a, self.last_name(a)) == shape(b, self.last_name(b))
            if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
                return all(self.same(x, y) for x, y in zip(a, b))
        except Exception:  # noqa: BLE001
            pass
        return False

    def last_name(self, text):
        """The name declared last."""
        return Module(text).order[-1]

    def settle(self, inp, out, p):
        force([inp["data"], inp.get("other"), inp.get("cn")])
        keys = sym_keys(inp["data"]) + texts_in([inp.get("cn")])
        for t in texts_in(out):
            uniform_source(t, keys)
