from checks.C15 import dicts
from harness import specs
from harness.base import DataHarness, texts_in
from oracles import docs
from oracles.module import Bad, Module
from symx.data import force
from symx.runner import Exc
from symx.symstr import SymStr
from symx.uniform import uniform_source

BUDGET = 60
BUDGET_THOROUGH = 700
BOUNDS = ("texts of length 0..3 (5 thorough) over Latin-1, of length up to 6 over quotes, backslashes, full stops, spaces, line ends and a letter, "
          "and texts of up to 360 characters with symbolic word and line boundaries around the line limit; as documentation of a class, of a TypedDict in functional syntax and of a field")

PRE = "___docstring_hidden_key_"


def texts(th):
    out = []
    for n in range(0, 4 if not th else 5):
        out.append(["text", [n, "ANY"]])
    mean = "\"\\.\n x"
    for n in range(2, 5 if not th else 6):
        out.append(["text", [n, mean]])
    out.append(["text", [3, "\""], [2, "\"\\ ."]])
    out.append(["text", "ab", [1, " \n."], [1, " \n."], "cd", [1, " \n."], [1, " \n."], "ef", [1, " \n."]])
    sep = "\n x"
    for a in range(80, 92, 1 if th else 2):
        out.append(["text", "a" * (a // 2), [1, sep], "b" * (a - a // 2 - 1), [1, " x"], [1, ". x"]])
    for a in (83, 84, 85, 86, 87, 88, 89, 90):
        out.append(["text", "w" * a, [1, sep], "v" * 3, [1, sep], "u" * 2])
    out.append(["text", "a" * 44, [1, sep], "b" * 44, [1, sep], "c" * 44, [1, sep], "d" * 44, [1, "\n."]])
    out.append(["text", "word " * 17, [2, sep], "tail", [1, sep], "end", [1, "\n\\\"."]])
    out.append(["text", "a" * 100, [2, sep], "b" * 100])
    out.append(["text", "w " * 20, [1, sep], "v" * 95, [1, sep], "u" * 3, [1, " ."]])
    out.append(["text", "w" * 60, [1, sep], "v" * 200, [1, sep], "u" * 40, [1, sep], "t" * 60])
    out.append(["text", "one", [1, "\n "], [1, "\n\t x"], [1, "\n "], "two", [1, "\n "], [1, "\n x"], "three"])
    return out


class Docs(DataHarness):
    """Documentation given with the data says the same in the hints."""

    name = "docs"

    def jobs(self, tier):
        js = []
        for i, t in enumerate(texts(tier == "thorough")):
            for kind in ("class", "functional", "field") if tier == "thorough" or i % 3 == 0 else (("class", "functional", "field")[i % 3],):
                js.append({"text": t, "kind": kind})
        return js

    def build(self, p):
        from symx.containers import SDict

        t = specs.node("t", p["text"])
        d = {"class": [("doc", t), ("a", 1)], "functional": [("a b", 1), ("doc", t)], "field": [("a", 1), (PRE + "a", t), ("b", 2)]}[p["kind"]]
        return {"data": SDict(d), "st_key_used_as_doc": "doc"}

    def settle(self, inp, out, p):
        t = inp["data"]["doc"] if "doc" in inp["data"] else inp["data"][PRE + "a"]
        if type(t) is SymStr:
            for ln in t.split("\n"):
                ln.split()
        for x in texts_in(out):
            uniform_source(x)

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        data = inp["data"]
        text = data["doc"] if "doc" in data else data[PRE + "a"]
        try:
            m = Module(out)
            td = m.get("X")[1]
            doc = td.docs.get("a") if p["kind"] == "field" else td.doc
            indent = "" if p["kind"] == "functional" else "    "
            raw = [ln[len(indent):] if ln.startswith(indent) else ln for ln in out.split("\n")]
            inside = [ln for ln in raw if '"""' not in ln and not ln.startswith(("a:", "b:", "doc:", "class ", "from ", "X =", " ", "}", ")"))]
            for pr in docs.problems(doc, text, inside):
                yield pr
        except Bad as e:
            yield str(e)


class KeyDocs(DataHarness):
    """Equal dictionaries of a list of which only some document their keys."""

    name = "key_docs"

    def jobs(self, tier):
        J = specs.J
        doc = lambda k, w: [PRE + k + "?", ["text", w + " ", [1, "ab"]]]  # noqa: E731
        A = ["dict", ["a", "int1"], doc("a", "x")]
        B = ["dict", ["a", "int1"], doc("a", "y")]
        C = ["dict", ["a", "int1"], doc("a", "z")]
        js = []
        for kind in ("list", "iter"):
            js.append(J([kind, A, B, C]))
            js.append(J([kind, ["any", "int1", ["dict", ["b", "str"], doc("b", "o")]], A, ["any", ["dict", ["b", "str"], doc("b", "o")], ["list", "int1"]], B], m=100))
            js.append(J([kind, ["dict", ["p", A]], ["dict", ["p", B]], ["dict", ["p", C]]]))
            js.append(J([kind, ["dict", ["a", "int1"], ["b", "int1"], doc("a", "x"), doc("b", "y")], ["dict", ["a", "int1"], doc("a", "z")]], m="*"))
        js.append(J(["dict", ["p", A], ["q", ["dict", ["b", A]]]]))
        js.append(J(["tuple", A]))
        if tier == "thorough":
            js.append(J(["list", A, B, C, A]))
            js.append(J(["list", ["list", A, B], ["list", B, C]]))
        return js

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        try:
            m = Module(out)
        except (Bad, SyntaxError) as e:
            yield str(e)
            return
        ds = dicts(inp["data"], [])
        for n, (k, td) in m.decls.items():
            if k != "td":
                continue
            mine = [d for d in ds if {x for x in d if not x.startswith(PRE)} <= set(td.fields) and all(x in d for x, (_, req, _r) in td.fields.items() if req)]
            for f in td.fields:
                texts = [d[PRE + f] for d in mine if PRE + f in d]
                said = td.docs.get(f)
                if said is None:
                    if texts and self.kept(p):
                        yield f"{n}.{f} is not documented, the data says {texts}"
                elif not any(not list(docs.problems(said, t)) for t in texts):
                    yield f"{n}.{f} is documented as {said!r}, the data says {texts}"

    def kept(self, p):
        return p["data"][0] in ("list", "iter") and not any(isinstance(x, list) and x[0] == "dict" and x[1][0] == "p" for x in p["data"][1:])


HARNESSES = [Docs, KeyDocs]
