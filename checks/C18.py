import inspect

from harness import specs
from harness.live import LiveHarness
from oracles import live

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = ("histories of up to 4 calls (8 for one fixed sequence of classes; 6 thorough) of from_data, from_yaml_file, reset and the constructor over up to 3 instances; class names with up to 2 symbolic characters "
          "(printable ASCII; 9 of identifiers in one family) and every word of the module that is nobody else's name, one-level data whose shape is open; keys and documentation beyond ASCII under UTF-8 and ASCII locales")

V = ["any", ["list", "int1"], ["dict", ["a", "int1"], ["b?", "str"]], "int1"]
NAMES = ["any", "=A", "=B"]


def D(n, v=V, i=0):
    return {"do": "data", "n": n, "v": v, "i": i}


def Y(n, i=0, **k):
    return {"do": "yaml", "n": n, "t": ["a: 1 # one", ["?", "b: [1]  # two"]], "i": i, **k}


RESET = {"do": "reset"}
ALL = ["any", D("=A", ["any", ["list", "int1"], "int1"]), D("=B", "str"), RESET, Y("=A")]


def words():
    """The words of the module that a class may be called as."""
    import ast
    import builtins
    import keyword
    import pathlib
    import re

    from symx import instrument

    text = ""
    for q in sorted(pathlib.Path(instrument.REPO).glob("lazy_type_hint/**/*.py")):
        t = q.read_text(encoding="utf-8")
        if "class LazyTypeHintLive(" in t:
            text = t
    tree = ast.parse(text)
    used = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} | set(dir(builtins))
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            used |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, (ast.ClassDef, ast.Constant)):
            used.add(getattr(n, "name", ""))
    local = {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}
    found = {w for w in re.findall(r"[A-Za-z_]\w*", text) if not keyword.iskeyword(w) and not keyword.issoftkeyword(w)}
    return sorted((found - used) | {w for w in local if w not in dir(builtins)})


def fams(th):
    j = []
    over = [{}, {"l": "Sequence"}]

    def add(steps, inst=over, **k):
        j.append({"steps": steps, "inst": inst, **k})

    add([D("=A"), ["any", D("=A"), D("=B"), Y("=A"), Y("=C")], D(NAMES, "int1")])
    add([D(["sym", 1, "IDENT"], "int1"), D(["sym", 1, "IDENT"], "str")])
    add([D(["sym", 2, "IDENT"], ["list", "int1"]), D(["text", "A", [1, "IDENT"]], "int1"), D("=A", "str")])
    add([D(["sym", 1, "PRINT"], "int1"), D("=Z", "str"), D(["sym", 2, "_a"], "str")])
    add([D("=Aa", "int1"), D(["text", "A", [1, "IDENT"]], "str"), D(["text", [1, "IDENT"], "a"], "int1"), Y("=Aa")])
    # several instances over the same files
    for create in ([], [0, 1]):
        add([D("=A", "int1", 0), ["any", D("=B", "int1", 1), RESET, D("=A", ["list", "int1"], 1)], ["any", D("=C", "str", 0), RESET, D("=A", "str", 0)], D(NAMES, "int1", 1)], create=create)
    add([D("=A", "int1", 0), RESET, ["any", D("=A", "str", 0), D("=B", "str", 0), {"do": "new", "i": 0}], D("=B", "int1", 0)])
    for x in ALL[1:]:
        add([x, ALL, ALL])
    add([D("=from_data", "int1"), D(["any", "=class_name", "=data", "=Literal_", "=overload_", "=X1"], "str"), D("=from_yaml_file", "int1")])
    w = words()
    for k in range(6):
        add([D(["any", *("=" + x for x in w[k::6])], "int1"), D("=A", "str")])
    add([D("=" + n, "int1") for n in "ABCDE"] + [["any", RESET, D("=F", "str"), D("=C", "str")], D("=F", "int1")])
    add([D(["sym", 9, "IDENT"], "int1"), D("=A", "str")])
    add([Y("=A"), D("=A"), Y("=B", w=["above", "side"])])
    add([D("=A", ["any", ["list", "int1"], "int1"]), D("=A", ["any", ["list", "int1"], "int1"], 1), D("=B", "int1")], [{"m": "*"}, {"m": "*"}])
    add([D("=A", ["frozenset", "int1", "str"]), D("=B", ["tuple", ["set", "int1"], ["proxy", ["a", "int1"]]])])
    mode = {"do": "mode", "i": 0}
    add([D("=A", "int1"), {**mode, "m": "validate"}, ["any", D("=A", "int1"), D("=B", "str"), Y("=A")], {**mode, "m": "overwrite"}, D(NAMES, "str")])
    add([{"do": "new", "i": 0}, {"do": "new", "i": 1}, D("=A", "int1", 1), {"do": "new", "i": 0}, D("=B", "int1", 0)])
    specs.DOMS["aé"] = [(97, 99), (233, 236)]
    L1 = ["dict", [["sym", 1, "aé"], "int1"]]
    add([D("=A", L1), ["any", D("=B", "int1"), D("=A", L1), RESET, Y("=B")]], locale=["ascii", "utf-8"])
    add([D("=A", ["dict", ["doc", ["sym", 1, "aé"]], ["a", "int1"]]), D("=B", "int1")], [{"k": "doc"}], locale=["ascii"])
    if th:
        for x in ALL[1:]:
            for y in ALL[1:]:
                add([x, y, ALL, ALL])
        add([D(["sym", 2, "IDENT"], "int1"), D(["sym", 2, "IDENT"], "str"), D(["sym", 2, "IDENT"], "str")])
        two = ["any", D("=A", "int1", 0), D("=A", "str", 1), D("=B", "int1", 1), RESET, {"do": "new", "i": 0}]
        for x in two[1:]:
            add([x] + [two] * 4)
            add([x] + [two] * 3, create=[0, 1])
        add([D(["sym", 3, "PRINT"], "int1")])
    return j


class History(LiveHarness):
    name = "history"
    KINDS = ("book",)

    def jobs(self, tier):
        return fams(tier == "thorough")

    def oracle(self, inp, out, p, L):
        with open(L.mods[L.find("LazyTypeHintLive").__module__].__spec__.origin, encoding="utf-8") as f:
            src = f.read()
        yield from live.history(inp, out, src, self.KINDS)


HARNESSES = [History]
