import pickle
import subprocess
import sys
import os

from harness import specs
from harness.base import DataHarness
from symx import core
from symx.runner import VERIF, Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = (
    "sets of up to 5 plain values in every order of the model (as given, reversed, rotated), dictionaries of up to seven keys, merged ones of up to four; classes whose names differ in case alone; two interpreters with different hash seeds for the real run; "
    "calls repeated on the same and on another object, between other calls, and first of all or after a call with data that compares equal, has the same keys or carries the same names"
)

CHILD = """
import pickle, sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
data, st = pickle.load(sys.stdin.buffer)
from lazy_type_hint import LazyTypeHint, ParsingStrategies
try:
    out = LazyTypeHint(ParsingStrategies(**st)).from_data(data, class_name="X").to_string()
except Exception as e:
    out = f"raised {type(e).__name__}"
sys.stdout.buffer.write(out.encode("utf8", "surrogatepass"))
"""


def permute(choice):
    def order(s, items):
        if choice == 1:
            return items[::-1]
        if choice == 2:
            return items[1:] + items[:1]
        return items

    return order


def lines(text):
    return [ln for ln in text.split("\n") if ln.strip()]


def history(th):
    """Two pieces of data, one after the other; much about them may be alike."""
    def f(**k):
        return ["func", {"kinds": [["PK"]], "names": ["a"], "def": [], **k}]

    body = f(body=["pass", "return a"], ret=["", "int"])
    ann = f(ann=["", "int", "List[int]"], **{"def": ["1", "'x'"]})
    v = ["any", "int1", "bool", "float1", "str", "None"]
    w = ["any", ["list", "int1"], ["list", "str"], ["tuple", "int1"], ["dict", ["a", "int1"]], ["dict", ["a", "str"]], ["dict", ["b", "int1"]], ["set", "int1"]]
    few = ["any", ["list", "int1"], ["dict", ["a", "int1"]], ["dict", ["a", "str"]], ["dict", ["b", "int1"]]]
    J = specs.J
    out = [
        {"other": body, **J(body)}, {"other": ann, **J(ann)},
        {"other": f(ann=["", "int"]), **J(["list", f(ann=["", "int"]), "int1"])},
        {"other": ["list", v], **J(["list", v])}, {"other": ["tuple", v], **J(["tuple", v])},
        {"other": ["set", v], **J(["set", v])}, {"other": ["dict", [["k", v], "int1"]], **J(["dict", [["k", v], "int1"]])},
        {"other": ["dict", ["a", w]], **J(["dict", ["a", w]], d="*")},
        {"other": ["list", few, few], **J(["list", few, few])},
        {"other": ["dict", ["a?", "int1"], ["b?", "str"]], **J(["dict", ["b?", "int1"], ["a?", "str"]])},
        {"other": ["any", "obj:foo", "obj:bar", "obj:Foo", "obj:math", "obj:len", "obj:f1", "obj:lam0"],
         **J(["any", "obj:foo", "obj:bar", "obj:Foo", "obj:math", "obj:len", "obj:f1", "obj:lam0"])},
    ]
    case = ["any", "obj:foo", "obj:FOOs", "obj:Foo", "obj:FOO", "obj:foods"]
    out += [J(["list", case, case]), J(["set", case, case]), J(["tuple", case, case], t="any size")]
    odd = ["any", "obj:oddd", "obj:oddl", "obj:oddt", "obj:oddp", "obj:foo", "obj:foo2", "obj:arr_i", "obj:arr_i4"]
    out += [{"other": odd, **J(odd)}, {"other": ["list", odd], **J(["dict", ["a", odd]])}]
    if th:
        out += [{"other": ["dict", ["a", w], ["b", w]], **J(["dict", ["a", w], ["b", w]])},
                {"other": w, **J(["dict", ["a", w]], d="*")}, {"other": ["dict", ["a", w]], **J(["list", w, w])}]
    return out


class Deterministic(DataHarness):
    """Same data, same text: again, after other data, and whatever the hash seed."""

    name = "deterministic"

    def families(self, tier):
        th = tier == "thorough"
        out = specs.fam_imports() + specs.fam_deterministic() + specs.fam_dictdict() + specs.fam_td() + specs.fam_flat(2)
        if th:
            for f in (specs.fam_flat_dict, specs.fam_nested, specs.fam_keys, specs.fam_spelling, specs.fam_heights):
                out += f()
            out += specs.fam_merge(th)
        out = history(th) + out
        for j in out:
            j["fam"] = tier
        return [j for j in out if '"iter"' not in repr(j).replace("'", '"') and not specs.nested_sets(j["data"])]

    def build(self, p):
        from symx.data import sym_int

        inp = super().build(p)
        if "other" in p:
            inp["other"] = specs.node("o", p["other"])
        inp["order"] = sym_int("order", 1, 2 if p["fam"] == "thorough" else 1)
        return inp

    def run(self, L, inp, p):
        S = L[""].ParsingStrategies
        T = L[""].LazyTypeHint
        st = {k[3:]: v for k, v in inp.items() if k.startswith("st_")}
        tree = T(S(**st)).from_data(inp["data"], class_name="X")
        one = tree.to_string()
        body = tree.to_string(include_imports=False)
        two = tree.to_string()
        T(S()).from_data([{"q": [1]}, {"r": {1: None}}], class_name="Other").to_string()
        again = []
        if L.realm.symbolic:
            e = core.eng()
            e.extra["set_order"] = permute(inp["order"].__index__())
            try:
                again.append(T(S(**st)).from_data(inp["data"], class_name="X").to_string())
            finally:
                e.extra.pop("set_order", None)
        elif p.get("hard"):
            again += self.seeds(inp["data"], st)
        else:
            again.append(T(S(**st)).from_data(inp["data"], class_name="X").to_string())
        first_body = T(S(**st)).from_data(inp["data"], class_name="X").to_string(include_imports=False)
        later = one
        if "other" in p:
            # in an interpreter that has only seen the other data so far
            F = L.realm.fresh()
            with F:
                F[""].LazyTypeHint(F[""].ParsingStrategies(**st)).from_data(inp["other"], class_name="X").to_string()
                later = F[""].LazyTypeHint(F[""].ParsingStrategies(**st)).from_data(inp["data"], class_name="X").to_string()
        return [one, two, body, first_body, later, again]

    def seeds(self, data, st):
        from symx import instrument

        out = []
        for seed in range(12):
            r = subprocess.run([sys.executable, "-c", CHILD, str(instrument.REPO), VERIF], input=pickle.dumps((data, st)),
                               capture_output=True, env={**os.environ, "PYTHONHASHSEED": str(seed)}, timeout=60)
            if r.returncode == 0:
                out.append(r.stdout.decode("utf8", "surrogatepass"))
        return out

    def same(self, a, b):
        if type(a) is list and type(b) is list:
            return a[:5] == b[:5]
        return a == b

    def suspicious(self, out, p):
        return type(out) is list and any(t != out[0] for t in out[5])

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        one, two, body, first, later, again = out
        if one != two:
            yield "rendering twice gives different text"
        if lines(body) != lines(first) or (body and lines(one)[-len(lines(body)) :] != lines(body)):
            yield "leaving out the imports changes the declarations"
        if later != one:
            yield "the same data gives different text after other data"
        if any(t != one for t in again):
            yield "the same data gives different text in another process or after other data"


HARNESSES = [Deterministic]
