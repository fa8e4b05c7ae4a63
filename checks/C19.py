from checks.C18 import D, RESET, Y, History

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = ("histories of up to 5 calls of from_data and from_yaml_file over up to 3 instances in either mode and with other strategies; data of up to two levels whose shape, keys (1 symbolic character) "
          "and documentation (2 symbolic characters) are open")

T = ["any", "int1", "str", "float1"]


def fams(th):
    j = []
    modes = [{"m": "*"}, {"m": "*"}]
    val = [{"m": "validate"}]

    def add(steps, inst=val, **k):
        j.append({"steps": steps, "inst": inst, **k})

    small = ["any", ["list", "int1"], ["dict", ["a", "int1"]], "int1"]
    for first in small[1:]:
        add([D("=A", first, 0), D("=A", small, 1), D("=A", small, 0)], modes)
    add([D("=A", ["dict", ["a", T], ["b?", T]]), D("=A", ["dict", ["a", T], ["b?", T]])])
    add([D("=A", ["dict", [["sym", 1, "IDENT"], "int1"]]), D("=A", ["dict", [["sym", 1, "IDENT"], "int1"]])])
    add([D("=A", ["dict", [["sym", 1, "KEY"], ["list", T]]]), D("=A", ["dict", [["sym", 1, "KEY"], ["list", T]]])])
    add([D("=A", ["list", T, T]), D("=A", ["list", T, T])])
    for kind in ("list", "tuple", "set"):
        add([D("=A", [kind, "int1"]), D("=A", ["any", ["list", "int1"], ["tuple", "int1"], ["set", "int1"], ["frozenset", "int1"], ["iter", "int1"], [kind], [kind, "int1", "str"]])])
    ab = ["any", ["dict", ["a", "int1"]], ["dict", ["b", "int1"]], ["dict", ["a", "int1"], ["b", "int1"]], ["dict", ["b", "int1"], ["a", "int1"]]]
    add([D("=A", ["dict", ["p", ab], ["q", ab]]), D("=A", ["dict", ["p", ab], ["q", ab]])])
    add([D("=A", ["tuple", T, T]), D("=A", ["tuple", T, T])])
    add([D("=A", ["dict", ["p", T], ["q", ["list", T]]]), D("=A", ["dict", ["p", T], ["q", ["list", T]]])])
    add([D("=A", ["list", "int1"]), D("=B", ["list", T]), D("=A", ["list", T])])
    add([D("=A", "int1"), RESET, D("=A", T), D("=A", T)])
    add([D(["sym", 1, "ab"], "int1"), D(["sym", 1, "ab"], "str"), D(["sym", 1, "ab"], "int1")])
    add([D("=A", "int1"), D("=B", "int1"), D("=C", "int1"), D("=D", "int1"), D(["sym", 1, "ABCD"], ["any", "int1", "str"])])
    # the mode of an instance may change
    mode = {"do": "mode", "i": 0}
    for a, b in (("validate", "overwrite"), ("overwrite", "validate")):
        add([D("=A", "int1"), {**mode, "m": a}, D("=A", T), {**mode, "m": b}, D("=A", T)], modes[:1])
    add([D("=A", "int1"), {**mode, "m": "validate"}, {"do": "new", "i": 0}, D("=A", T), D("=A", T, 1)], [{"m": "*"}, {"m": "validate"}])
    # other strategies are other hints
    add([D("=A", ["list", ["dict", ["a", "int1"]]], 0), D("=A", ["list", ["dict", ["a", "int1"]]], 1)], [{"m": "validate"}, {"m": "validate", "l": "*", "r": "*"}])
    add([D("=A", ["dict", ["a", ["tuple", "int1", "int1"]]], 0), D("=A", ["dict", ["a", ["tuple", "int1", "int1"]]], 1)], [{"m": "validate"}, {"m": "validate", "t": "*", "d": "*"}])
    add([D("=A", ["list", ["list", "int1"]], 0), D("=A", ["list", ["list", T]], 1)], [{"m": "validate"}, {"m": "validate", "h": "*"}])
    # quotes elsewhere are no docstrings
    def f(*values, n="a"):
        return ["func", {"kinds": [["PK"]], "names": [[n]], "def": list(values)}]

    for around, between in (("'\"\"\"'", "'x'"), ("'\"'", "'\\''")):
        quoted = ["dict", ["x", f(around)], ["y", f(between, n="b")], ["z", f(around, n="c")]]
        add([D("=A", quoted), D("=A", quoted)])
    # documentation does not count
    lines = ["a: 1  #", [[0, 1, 2], "xB .\""]]
    doc = [["a: 1 #", [[1, 2], "xB .\"\\"]], ["?", "# up"], ["|", "b: 2", "b: x", "b: 2 # two"], ["?", "# down"]]
    for w in (["side"], ["above", "side"], ["below"]):
        add([{"do": "yaml", "n": "=A", "t": ["a: 1 # one", "b: 2"], "i": 0, "w": w}, {"do": "yaml", "n": "=A", "t": doc, "i": 0, "w": w}])
        add([{"do": "yaml", "n": "=A", "t": ["# top", "a:", "  - c: 1 # one", "    # mid", "    d: [1]"], "i": 0, "w": w},
             {"do": "yaml", "n": "=A", "t": [["?", "# top"], ["|", "a:", "a: # all"], "  - c: 1", ["?", "    # mid", ], ["|", "    d: [1]  # side", "    d: [1]", "    d: [x]"]], "i": 0, "w": w}])
    add([{"do": "yaml", "n": "=A", "t": [lines], "i": 0}, D("=A", ["dict", ["a", T]]), {"do": "yaml", "n": "=A", "t": ["a: 1 # other"], "i": 0}])
    kd = {"m": "validate", "k": "k"}
    add([D("=A", ["dict", ["k", ["sym", 2, "PRINT"]], ["a", "int1"]]), D("=A", ["dict", ["k?", ["text", [1, "x\n\"\\"], "\n", [1, "x\"\\ "]]], ["a", "int1"]])], [kd])
    if th:
        big = ["any", ["list", "int1"], ["list", "str"], ["dict", ["a", "int1"], ["b?", "str"]], "int1", "str", "None", ["list", ["dict", ["a", T]]]]
        for first in big[1:]:
            add([D("=A", first), D("=A", big), D("=A", big)], modes)
            add([D("=A", first, 0), D("=A", big, 1), D("=B", "int1", 1), D("=A", big, 0)], modes)
        add([D("=A", ["dict", [["sym", 2, "KEY"], "int1"]]), D("=A", ["dict", [["sym", 2, "KEY"], "int1"]])])
        add([D("=A", ["list", ["dict", ["a?", T], ["b?", "int1"]], ["dict", ["a?", "int1"]]], 0), D("=A", ["list", ["dict", ["a?", "int1"], ["b?", "int1"]], ["dict", ["a?", "int1"]]], 0)], [{"m": "validate", "m": "validate"}])
    return j


class Validate(History):
    name = "validate"
    KINDS = ("valid",)

    def jobs(self, tier):
        return fams(tier == "thorough")

    def nontrivial(self, inp, out, p):
        return isinstance(out, list) and len(out) > 1


HARNESSES = [Validate]
