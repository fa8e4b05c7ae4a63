from harness import specs
from harness.base import DataHarness
from oracles.flow import td_flows
from oracles.module import Bad, Module
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = (
    "two to five string-keyed dictionaries in lists, tuples, iterators, dictionaries and proxies, up to four keys each with any presence pattern and values of any of six types; "
    "keys of up to 2 symbolic characters (3 and 4 over smaller alphabets; Latin-1 for 1, 2 thorough), keys holding the internal prefix; every similarity threshold, dictionary and read-only strategy"
)


class Keys(DataHarness):
    """Keys, requiredness and ReadOnly of every TypedDict."""

    name = "keys"

    def families(self, tier):
        th = tier == "thorough"
        js = specs.fam_merge(th) + specs.fam_dictdict(th) + specs.fam_keys(th) + specs.fam_td()
        for f in (specs.fam_flat_dict, specs.fam_nested, specs.fam_heights):
            js += [j for j in f() if '"dict"' in repr(j).replace("'", '"')]
        return js

    def settle(self, inp, out, p):
        super().settle(inp, out, p)
        self.decide(inp, "typed_dict_read_only_values")

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        try:
            m = Module(out)
            flows = td_flows(m, self.cn(inp), [inp["data"]])
        except Bad as e:
            yield str(e)
            return
        ro = bool(inp.get("st_typed_dict_read_only_values", False))
        for n, (k, td) in m.decls.items():
            if k != "td":
                continue
            ds = flows[n]
            if not ds:
                continue
            keys = {k for d in ds for k in d}
            if set(td.fields) != keys:
                yield f"{n} declares {sorted(td.fields)} for dictionaries with {sorted(keys, key=repr)}"
                return
            for f, (_, req, r) in td.fields.items():
                if req != all(f in d for d in ds):
                    yield f"{n}.{f} is {'required' if req else 'NotRequired'}, present in {sum(f in d for d in ds)} of {len(ds)}"
                if r != ro:
                    yield f"{n}.{f}: ReadOnly is {r}, asked for {ro}"
            first = [f for f in td.fields]
            if len({tuple(d) for d in ds}) == 1 and first != list(ds[0]):
                yield f"{n} lists {first} for keys in order {list(ds[0])}"

    def nontrivial(self, inp, out, p):
        return isinstance(out, str) and "TypedDict" in out


HARNESSES = [Keys]
