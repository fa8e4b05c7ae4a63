from harness.yamls import YamlHarness, ways
from harness.base import texts_in
from oracles import yamldoc
from symx.data import force
from symx.uniform import uniform_source
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = ("YAML files of up to 10 lines (block and flow collections, scalars and literals over several lines, anchors, merge keys, documents) in which comments may stand in every position and comment, value, literal-block and key texts have up to 4 symbolic characters; "
          "every position of comments, dictionary strategy, list strategy, element limit and similarity threshold")

X = "xB .#:-'\""

NAMES = ["f.yaml", "f.yml", "a.b.yml", "a b.yaml", "_f.yaml", ".f.yml"]


def fams(th):
    j = []

    def add(lines, where="*", **st):
        j.append({"lines": lines, "where": where, "st": st})

    j.append({"lines": [["?", "# own"], "a: 1 # one", ["|", "b: x", "b: ["]], "where": [["side"], ["above", "side"]], "name": NAMES, "kind": ["str", "Path"]})

    add([["?", "# own"], "- a: 1 # one", "  b: 1  # two", ["?", "  # three"], "- a: 1", ["|", "  b: 1", "  b: 1 # four"], ["?", "  c: 1"], ["?", "  d: 1 # five"]], [["side"], ["above", "side"]], m="*")
    # what is refused
    j.append({"lines": ["a: 1 # one", ["?", "# two"], "b: x"], "where": [["above", "below"], ["below", "above"], ["below", "side", "above"], ["side", "above", "below"], ["side", "below"]], "kind": ["str", "Path"]})
    j.append({"lines": ["a: 1 # one", ["?", "# two"], "b: x"], "where": "*", "name": ["f.txt", "f.json", "f.yaml.txt", "yml", "f.yamlx", "f.yaml"], "kind": ["str", "Path"]})
    n = [1, 2] if th else [1]
    for w in ([["side"]], [["above"], ["side", "above"]], [["below", "side"]]):
        add([["#", [n, X]], ["a: 1  #", [n[:1], X]], ["#", [1, X]], "b: x"], w)
        add([["a: x", [n, X]], "b:", [" - c: y", [n, X]], "   # x", "   d: 1 # y"], w)
        add(["a: |", ["  k: ", [n, X]], ["  ", [n, X]], "b: 1 # doc"], w)
        add(["- |", ["  k: ", [n, X]], ["  # ", [1, X]], "- 1 # doc", "- k: x # doc"], w)
        add([["- x", [n, X], " # z"], ["- ", [n, X], ": 1 # y"], "- b: 2"], w)
        add([["k", [n, X], ": 1 # one"], ["- "[2:] + "l", [1, X], ": x", [n[:1], X]]], w)
    lists = ["a:  # all", ["|", "  - b: 1  # bb", "  - b: 1", "  # one"], ["?", "    c: 2 # cc"], ["|", "  - b: 2 # B", "  - c: x # C"], ["|", "  - 1 # num", "  - null", "  - - b: 1 # deep", "  - - 1 # deep"],
             "d: {q: 1} # flow"]
    add(lists, [["side"], ["below", "side"]], d="*", l="*")
    add(lists, [["side"]], h="*", m=50)
    add(["- a: 1  # aa", "  b: 2  # bb", ["?", "  c: 3 # cc"], "- a: 1 # x", ["|", "  # above b", "  d: 1"], ["|", "  b: x # b", "  b: 1 # b"]], [["side"], ["above"]], m="*", r="*")
    add(["1: 1  # one", "b: 2 # two", ["|", "on: x # three", "3: y # four"], "l: [1, 2] # five"], [["side"]], d="*")
    add(["a: 1 # one", "b: x # two", "c: null # three", "d: [1, x] # four"], [["side"]], d=["dict", "Mapping", "TypedDict"], n=[1, 5])
    add(["a:", "  - 1 # x", "  - b: 1 # y", "    c: 2 # z", "  - x", "d: 1 # w"], [["side"]], d="*", n=[1, 4])
    add(["a b: 1 # one", "class: 2 # two", ["?", "c: # three"], ["?", "  d-e: 1 # four"]], "*")
    add(["- - a: 1 # x", "  - b: 2 # y", ["?", "# z"], "-   - 1 # x", "-   c: 1 # y", "    d: 2 # z"], "*")
    add(["---", "# top", "a: 1 # x", "", "# mid", "b:", "- 1 # a", "- x: 1 # b", "# end"], "*")
    add(["a: 'it''s' # it's", "b: \"#\" # \"x", "c: it's # x", "d: x # y: z"], "*")
    for w in ([["side"]], [["above"], ["below"]]):
        # collections, quoted and plain scalars over several lines
        add([["|", "a: {", "a: {  # open"], ["?", "  # own"], ["  b: 1, #", [n, X]], ["|", "  c: 2 }", "  c: [2, x]", "  c: 2, }  # end"], ["?", "  }"], ["?", "d: 1 # dd"]], w)
        add(["a: [1, # one", ["?", "  # two"], ["|", "  x, {b: 1}]", "  {b: 1, # bb", "  - 1]"], ["?", "   c: 2}] # cc"], "d: 1 # dd"], w)
        add([["|", 'a: "x', "a: 'x", "a: x"], ["|", "  y: 1 # no", "  y # yes", "  y"], ["?", "  # z"], ["|", '  z" # end', "  z' # end", "  z # end"], "b: 1 # bb"], w)
        add([["|", "a: >", "a: >-", "a: |-"], ["  k: 1 #", [n, X]], ["?", "  # z"], ["?", "    l: 2 # deep"], "b: 1 # bb"], w)
    # the same mapping in several places
    add(["a: &q # anchor", "  b: 1 # bb", ["?", "  c: x # cc"], ["|", "d: *q # again", "d: {b: x} # other", "d: # own"], ["|", "  <<: *q # merged", "  e: 1 # ee", "f: *q"], ["?", "g: [*q, *q] # list"]], [["side"], ["above"]], d="*")
    add(["- &q # anchor", "  b: 1 # bb", ["?", "  c: x # cc"], "- *q # again", ["|", "- <<: *q # merged", "- b: 2 # own"], ["?", "  e: 1 # ee"]], [["side"], ["above"]], d="*")
    add([["?", "# top"], "---", "a: 1 # one", ["|", "b: 2 # two", "--- # next"], ["|", "- x", "c: 1 # three"]], [["side"], ["above"]])
    return j


class Unaffected(YamlHarness):
    """Comments change nothing but the documentation."""

    name = "unaffected"

    def jobs(self, tier):
        return fams(tier == "thorough")

    def settle(self, inp, out, p):
        force([inp["where"], inp.get("name"), inp.get("kind")])
        for x in texts_in(out[:2]):
            uniform_source(x)

    def oracle(self, inp, out, p, L):
        a, plain, after, others = out
        if others:
            yield f"files were left beside it: {others}"
        if after != inp["text"]:
            yield "the file was changed"
        if isinstance(plain, Exc):
            if not isinstance(a, Exc):
                yield f"reading comments hides that the file cannot be loaded ({plain})"
            return
        where = ways(inp["where"])
        if {"above", "below"} <= set(where) or not str(inp.get("name", "f.yaml")).endswith((".yaml", ".yml")):
            if not isinstance(a, Exc):
                yield "comments are read from above and below at once, or from a file that is no .yaml"
            return
        if isinstance(a, Exc):
            yield f"no hints for a valid file: {a}"
            return
        if '"""' in plain:
            yield "documentation although no comments are to be read"
        try:
            x, y = yamldoc.without_docs(a), yamldoc.without_docs(plain)
        except (SyntaxError, ValueError) as e:
            yield f"not valid Python: {e}"
            return
        if x != y:
            yield f"the types differ from those of the data, which are {plain!r}"


HARNESSES = [Unaffected]
