from harness.yamls import YamlHarness, ways
from oracles import yamldoc
from oracles.module import Bad, Module
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = ("YAML files of up to 9 lines: flat, nested and list-of-mapping templates in which every comment line may be absent, "
          "indentation of comments is symbolic, comment texts have up to 3 (4 thorough) symbolic printable characters, values may hold hashes and paired quotes; every position or ordered pair of positions")

T = "xB .#:-"
P = "PRINT"


def fams(th):
    j = []
    n = [1, 2, 3] if th else [1, 2]
    for dom, k in ((T, n + ([4] if th else [])), (P, [1, 2] if th else [1])):
        j.append({"lines": ["a: 1", ["b: x  #", [k, dom]], "c: 2 # s"], "where": [["side"], ["above", "side"]]})
        j.append({"lines": [["#", [k, dom]], ["a: 1 # s"], "b: 2"], "where": [["above"], ["side", "above"]]})
        j.append({"lines": ["a: 1 # s", ["#", [k, dom]], "b: 2"], "where": [["below"], ["side", "below"], ["above"]]})
        j.append({"lines": ["# one", ["#", [[0] + k, dom]], "# Two", "a: 1", "b: 2"], "where": [["above"]]})
        j.append({"lines": ["a: 1", ["# one", [1, " ."]], ["#", [[0] + k, dom]], "b: 2"], "where": [["below"], ["above"]]})
    j.append({"lines": [["?", "# own"], "a: 1 # one", "b: x"], "where": [["side"], ["above", "side"]], "name": ["f.yaml", "f.yml", "a.b.yml", "a b.yaml", "_f.yaml", ".f.yml"], "kind": ["str", "Path"]})
    # how lines end and begin
    for mark in (".:;,!?", ")]}", "\"'`", "xX0-"):
        j.append({"lines": [["# one", [1, mark]], ["# ", [1, "Tt"], "wo"], ["?", "#"], ["# ", [1, ":-(T"], "x"], "a: 1"], "where": [["above"]]})
        j.append({"lines": ["a: 1 # side", ["# one", [1, mark]], ["# ", [1, "Tt"], "wo"], "b: 2"], "where": [["below"], ["side", "below"]]})
    # capitals within sentences
    j.append({"lines": [["# On", [1, "eE"], [1, "., "]], ["# ", [1, "tT"], "h", [1, "eE"], " AP", [1, "iI"]], "a: 1"], "where": [["above"]]})
    j.append({"lines": [["a: 1 # ", [1, "oO"], "n", [1, "eE"], " B"], ["# ", [1, "tT"], "h", [1, "eE"], " AP"], ["# ", [1, "lL"], "as", [1, "tT"]]], "where": [["below"], ["below", "side"], ["side"]]})
    # lines that may be equal
    ab = ["#", [1, "ab"]]
    j.append({"lines": [ab, ab, ab, "a: 1 # b", "b: 2"], "where": [["above"], ["above", "side"]]})
    j.append({"lines": ["a: 1 # b", ab, ab, ab, "b: 2"], "where": [["below"], ["side", "below"], ["above"]]})
    # long blocks
    some = [["?", "# one"], ["?", "# two."], ["?", "# Three"], ["?", "#"], ["?", "# five"], ["?", "# six"]]
    j.append({"lines": [*some, "a: 1"], "where": [["above"]]})
    j.append({"lines": ["a: 1", *some], "where": [["below"]]})
    # every comment may be there or not
    j.append({"lines": ["k: 0", ["?", "# above a"], ["|", "a: 1", "a: 1  # side a"], ["?", "# below a"], ["|", "b: x", "b: x # side b"], ["?", "# end"]], "where": "*"})
    j.append({"lines": [["?", "# first"], ["|", "a: 1", "a: 1  # side a"], ["?", "# between"], ["?", "# more"], "b: x", ["?", "# end"]], "where": "*"})
    # nested: alignment of the comments
    sp = [[0, 1, 2, 3], " "]
    j.append({"lines": ["a: ", [sp, "# one"], "  b: 1  # side", [sp, "# two"], "  c: 2", "d: 3"], "where": "*"})
    j.append({"lines": [["a:", [[1, 2, 3], " "], "# of a"], "    b: 1", "    c:", [[[2, 4], " "], "# x"], "      d: 2 # dd"], "where": "*"})
    j.append({"lines": ["a:", "  - b: 1  # bb", [sp, "# one"], "    c: 2", ["?", "    # two"], "    d: 3 # dd", [sp, "# three"], "  - e: 4", "    # four"], "where": "*"})
    j.append({"lines": ["- a: 1 # aa", [["?", "  # two"]][0], "  b: 2", ["?", "  # three"], "- a: 3", "  b: 4 # bb"], "where": "*"})
    j.append({"lines": ["- # none", ["?", "  # one"], "  a: 1", "-   b: 1 # bb", "    c: 3 # cc"], "where": "*"})
    # values and keys
    for v in (["'", [2, "# x"], "'"], ['"', [2, "# x:"], '"'], ["x", [2, "#x"], ], ["[1, 2]"], ["{q: 1}"], ["x#", [1, "x#"], " #y"], ["http://x"], ["-1"], ["'q' r"[:3]]):
        j.append({"lines": ["a: 1", ["b: ", *v, [[1, 2], " "], "# doc"], "c: 2  # other"], "where": [["side"]]})
    # apostrophes
    for q in ("'", '"'):
        j.append({"lines": ["a: 1", ["b: do", [1, q + "x5"], [1, "tS "], "x  # doc"], "c: 2  # other"], "where": [["side"], ["above", "side"]]})
        j.append({"lines": ["a: 1", ["b: ", q, "it", [1, "'x"], "s ", [1, "#x"], " y", q, " # doc"], "c: 2  # other"], "where": [["side"]]})
    j.append({"lines": ["# one", ["k", [1, "'x"], "t", [1, "'x"], "s: 1 # doc"], "c: it's # other"], "where": "*"})
    j.append({"lines": ["a:", ["- k", [1, "'x"], "t: it", [1, "'x"], " # doc"], "  # one", ["  c: 1 # it", [1, "'\""], "s"]], "where": "*"})
    j.append({"lines": [["k", [2, "aB1_"], ": 1 # doc"], "  # no", ["k", [1, "aB1_"], ":  2 # Other"]], "where": [["side"], ["side", "below"]]})
    j.append({"lines": ["a: 1", "", ["?", "# one"], ["?", ""], "b: 2", ["?", ""], ["?", "# two"], "c: 3"], "where": "*"})
    j.append({"lines": ["a:", "  b:", "    c:", ["?", "      # dd"], "      d: 1 # side", ["?", "    # ee"], "    e: 2", ["?", "  # ff"], "  f: 3", ["?", "# gg"], "g: 4"], "where": "*"})
    return j


class Comments(YamlHarness):
    """Comments of a YAML file become the documentation of their keys."""

    name = "comments"

    def jobs(self, tier):
        return fams(tier == "thorough")

    def oracle(self, inp, out, p, L):
        a, plain = out[:2]
        if isinstance(plain, Exc):
            return
        if isinstance(a, Exc):
            yield f"no hints for a valid file: {a}"
            return
        want = yamldoc.comments(inp["text"], ways(inp["where"]))
        try:
            m = Module(a)
        except Bad as e:
            yield str(e)
            return
        got = {}
        for kind, d in m.decls.values():
            if kind == "td" and not d.functional:
                for f in d.fields:
                    got.setdefault(f, []).append(d.docs.get(f))
        for key, docs in got.items():
            if key not in want:
                continue
            for doc in docs:
                ok = [w for w in want[key] if (doc is None and not w) or (doc is not None and yamldoc.reads(doc, w))]
                if not ok or doc is None and any(want[key]) and len(docs) == 1:
                    yield f"{key} is documented as {doc!r}; its comments say {want[key]}"


HARNESSES = [Comments]
