import ast

from harness import specs
from harness.base import DataHarness
from oracles.flow import expand, height, inlined
from oracles.module import Bad, Module, sub
from symx.runner import Exc, guarded

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = specs.ALL_DATA + "; every alias height 0..7 for nests of up to eight levels of unequal depth; height 0 against none for the other families (any height thorough)"


class Heights(DataHarness):
    """The alias threshold decides what is named, never what is declared."""

    name = "heights"

    def families(self, tier):
        js = specs.fam_heights()
        for f in (specs.fam_nested, specs.fam_merge, specs.fam_dictdict, specs.fam_keys, specs.fam_td, specs.fam_objects):
            for j in f():
                st = {k: v for k, v in j["st"].items() if k != "h"}
                st["m"] = 50
                js.append({"data": j["data"], "st": {**st, "h": "*" if tier == "thorough" else 0}})
        return js

    def run(self, L, inp, p):
        S = L[""].ParsingStrategies
        T = L[""].LazyTypeHint
        st = {k[3:]: v for k, v in inp.items() if k.startswith("st_")}
        one = T(S(**st)).from_data(inp["data"], class_name="X").to_string()
        if "iter" in repr(p["data"]):
            return [one]
        st["min_height_to_define_type_alias"] = 99
        return [one, T(S(**st)).from_data(inp["data"], class_name="X").to_string()]

    def settle(self, inp, out, p):
        super().settle(inp, out, p)
        h = inp.get("st_min_height_to_define_type_alias", 1)
        any(bool(h <= k) for k in range(7))

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        h = inp.get("st_min_height_to_define_type_alias", 1)
        try:
            ms = [Module(t) for t in out]
            m = ms[0]
            for n, (k, d) in m.decls.items():
                if k == "alias" and n != "X" and sub(d)[0] != "Callable" and height(m, d) <= h:
                    yield f"{n} has height {height(m, d)}, which does not exceed {h}"
                exprs = [d] if k == "alias" else [ft for ft, _, _ in d.fields.values()] if k == "td" else []
                for e in exprs:
                    inner = list(inlined(e))
                    if k == "td":
                        inner.append(e)
                    for x in inner:
                        if isinstance(x, ast.Subscript) and ast.unparse(x.value) not in ("Union", "Optional", "Callable", "Type") and height(m, x) > h:
                            yield f"{n} writes out {ast.unparse(x)} of height {height(m, x)} above {h}"
            if len(ms) == 2 and expand(m, ast.Name("X")) != expand(ms[1], ast.Name("X")):
                yield "the declared type depends on the alias threshold"
        except Bad as e:
            yield str(e)


HARNESSES = [Heights]
