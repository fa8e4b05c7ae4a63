from symx import data as D
from symx.data import Lazy
from symx.runner import Exc, Harness, guarded

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = ("option texts of every length 0..32 over all of Latin-1 for each of the text options; the three integers from -2 to 103 in pairs; "
          "the limit also None; the booleans")

TEXTS = {
    "list_strategy": ("Sequence", "list"),
    "tuple_size_strategy": ("fixed", "any size"),
    "dict_strategy": ("TypedDict", "Mapping", "dict"),
    "pandas_strategies": ("Full type hint", "Type hint only for autocomplete", "Do not type hint columns"),
}
DEFAULTS = {
    "list_strategy": "list", "tuple_size_strategy": "fixed", "dict_strategy": "TypedDict", "pandas_strategies": "Full type hint",
    "min_height_to_define_type_alias": 1, "key_used_as_doc": "", "merge_different_typed_dicts_if_similarity_above": 50,
    "typed_dict_read_only_values": False, "check_max_n_elements_within_container": 500,
}
INTS = {"min_height_to_define_type_alias": "h", "merge_different_typed_dicts_if_similarity_above": "m", "check_max_n_elements_within_container": "n"}


def valid(k, v):
    if k in TEXTS:
        return v in TEXTS[k]
    if k == "min_height_to_define_type_alias":
        return v >= 0
    if k == "merge_different_typed_dicts_if_similarity_above":
        return 1 <= v <= 100
    if k == "check_max_n_elements_within_container":
        return v is None or v >= 1
    return True


def text(name, n, allowed):
    """Any text of length n: one of the allowed ones of that length or any other."""
    return D.sym_str(name, n, D.ANY1)


class Options(Harness):
    name = "options"

    def jobs(self, tier):
        js = []
        for k in TEXTS:
            for n in range(0, 33 if tier == "quick" else 48):
                js.append({"text": [[k, n]], "ints": []})
        for a, b in (("list_strategy", "dict_strategy"), ("tuple_size_strategy", "pandas_strategies"), ("dict_strategy", "pandas_strategies")):
            for n in (4, 5, 7, 8, 9):
                for m in (4, 5, 7, 8, 9, 14):
                    js.append({"text": [[a, n], [b, m]], "ints": ["m"]})
        js.append({"text": [], "ints": ["h", "m"]})
        js.append({"text": [], "ints": ["m", "n"]})
        js.append({"text": [], "ints": ["h", "n"]})
        js.append({"text": [], "ints": ["h", "m", "n", "r"]})
        js.append({"text": [["list_strategy", 4], ["dict_strategy", 4]], "ints": ["h", "m", "n"]})
        js.append({"text": [], "ints": []})
        return js

    def build(self, p):
        o = {}
        for k, n in p["text"]:
            o[k] = text(k, n, TEXTS[k])
        for k, i in INTS.items():
            if i in p["ints"]:
                v = D.sym_int(k, -2, 103)
                if i == "n":
                    v = Lazy("limit", [v, None])
                o[k] = v
        if "r" in p["ints"]:
            o["typed_dict_read_only_values"] = D.sym_bool("ro")
        return o

    def run(self, L, inp, p):
        S = L[""].ParsingStrategies
        s = guarded(S, **inp)
        if type(s) is Exc:
            return [s, None, None]
        got = [getattr(s, k) for k in DEFAULTS]
        frozen = guarded(setattr, s, "list_strategy", "list")
        return [None, got, frozen]

    def settle(self, inp, out, p):
        for k, v in inp.items():
            while isinstance(v, Lazy):
                v = v._resolve()
            bool(valid(k, v))

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"unexpected {out}"
            return
        err, got, frozen = out
        bad = [k for k, v in inp.items() if not valid(k, v)]
        if bad and err is None:
            yield f"accepted although {bad[0]} is {inp[bad[0]]!r}"
        elif bad and "ValueError" not in err.mro:
            yield f"not a ValueError: {err}"
        elif not bad and err is not None:
            yield f"refused although every value is allowed: {err}"
        elif not bad:
            want = [inp.get(k, d) for k, d in DEFAULTS.items()]
            if got != want:
                yield f"holds {got} instead of {want}"
            if not isinstance(frozen, Exc):
                yield "the strategies can be changed after they were checked"


HARNESSES = [Options]
