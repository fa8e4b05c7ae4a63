"""Input families written as small JSON specs, and the strategies that go with them.

spec ::= "int" | "str" | "float" | "bool" | "None" | "bytes" | "complex" | "obj:<name>"
       | ["any", spec, ...]                    one of, chosen when looked at
       | ["list"|"tuple"|"set"|"frozenset"|"iter", spec, ...]
       | ["dict"|"proxy", [key, spec], ...]    key: "name", "name?" (maybe absent), ["sym", n, DOM], or ["k", spec]
"""
from __future__ import annotations

import collections
import datetime
import enum
import io
import math
import types

from symx import data as D
from symx.containers import SDict, SFrozenSet, SSet
from symx.core import eng, z3
from symx.symstr import str_eq
from symx.data import Lazy, SymIter
from symx.frames import SymFrame, SymSeries
from symx.funcs import SymFunction

DOMS = {
    "LETTER": D.LETTER, "LOWER": D.LOWER, "PRINT": D.PRINT, "LATIN1": D.LATIN1, "ANY": D.ANY1,
    "ab": [(97, 98)], "ABCD": [(65, 68)], "IDENT": [(48, 57), (65, 90), (95, 95), (97, 122)],
    # key characters the tool turns into names: letters, digits, underscore, space and ASCII punctuation
    # (without quotes and backslash)
    "KEY": [(32, 33), (35, 38), (40, 91), (93, 126)],
    "DIGIT": [(48, 57)], "_a": [(95, 95), (97, 97)], "WORD": [(32, 32), (45, 45), (48, 57), (65, 90), (95, 95), (97, 122)],
}


class Foo:
    """A class of the user's."""

    def __repr__(self):
        return "Foo()"

    def __eq__(self, o):
        return type(o).__name__ == type(self).__name__

    def __hash__(self):
        return 7


class Bar(Foo):
    def __repr__(self):
        return "Bar()"


class Foods(Foo):
    def __repr__(self):
        return "Foods()"


class Foods2(Foo):
    def __repr__(self):
        return "Foods2()"


def _other_foo():
    class Foo:
        """Another class of that name."""

        def __repr__(self):
            return "Foo()"

        def __eq__(self, o):
            return type(o).__name__ == "Foo"

        def __hash__(self):
            return 7

    return Foo


OtherFoo = _other_foo()


class Meth:
    @classmethod
    def cm(cls, a):
        return a

    @staticmethod
    def sm(a: int) -> str:
        return str(a)

    def m(self, a, *, b=1):
        return a


class Names(list):
    """A list of the user's."""


class Frozen(frozenset):
    """A frozen set of the user's."""


class Bag(set):
    """A set of the user's."""


class NamesOfNames(Names):
    """A list of the user's that derives from another one."""


class Ordered(collections.OrderedDict):
    """A dictionary of the user's that derives from another one."""


class Points(collections.namedtuple("Pair", "x y")):
    """A tuple of the user's that derives from another one."""


class Bags(Bag):
    """A set of the user's that derives from another one."""


class FOO:
    """A class whose name differs from that of another one in case alone."""


class Text(str):
    """A text of the user's."""


class Colour(enum.Enum):
    RED = 1


class Level(enum.IntEnum):
    LOW = 1


Point = collections.namedtuple("Point", "x y")

# Classes of the same name that are different kinds of data
OddDict, OddList, OddTuple, OddPlain = (type("Odd", (b,), {"__module__": __name__, "__repr__": lambda self: "Odd()"}) for b in (dict, list, tuple, object))

# Objects that could be changed by being looked at: made anew each time.
FRESH = {
    "textio": lambda: io.StringIO("a\nb"), "bytesio": lambda: io.BytesIO(b"a\nb"),
    "odict": lambda: collections.OrderedDict(a=1, b="x"), "ddict": lambda: collections.defaultdict(list, a=1),
    "ddict1": lambda: collections.defaultdict(list, {1: "x"}), "names": lambda: Names([1, "x"]), "bag": lambda: Bag([1]), "frozen": lambda: Frozen([1]), "names2": lambda: NamesOfNames([1]),
    "odict2": lambda: Ordered(a=1), "points": lambda: Points(1, "x"), "bags": lambda: Bags([1]), "deque": lambda: collections.deque([1]),
    "point": lambda: Point(1, "x"), "oddd": lambda: OddDict(a=1), "oddl": lambda: OddList([1]), "oddt": lambda: OddTuple([1]),
}


def _f1(a: int, b: str = "x") -> bool:
    return bool(a)


def _f2(a, *args, **kw):
    print(a)


def _f3(x):
    return x


def _objs():
    import numpy as np

    return {
        "foo": Foo(), "bar": Bar(), "foods": Foods(), "Foods": Foods, "FOO": FOO, "FOOs": FOO(), "foods2": Foods2(), "Foods2": Foods2, "foo2": OtherFoo(), "Foo2": OtherFoo, "math": math, "f1": _f1, "f2": _f2, "f3": _f3, "lam0": lambda: 1, "lam2": lambda a, b: a,
        "int": int, "Foo": Foo, "str": str, "range": range(2), "slice": slice(1), "len": len,
        "arr_i": np.array([1, 2]), "arr_f": np.array([1.5]), "arr_i4": np.array([1], dtype="int32"), "arr_f4": np.array([1.5], dtype="float32"), "oddp": OddPlain(),
        "arr_u": np.array(["a"]), "arr_u2": np.array(["abc"]), "arr_b": np.array([True]), "arr_o": np.array([None, 1], dtype=object), "arr_d": np.array(["2020-01-01"], dtype="datetime64[D]"),
        "arr_v": np.array([(1, 2.0)], dtype=[("p", "i4"), ("q", "f8")]), "arr_0": np.array([]), "arr_be": np.array([1], dtype=">i8"), "arr_c": np.array([1j]),
        "emptylist": [], "ell": ..., "ni": NotImplemented,
        "bytearray": bytearray(b"x"), "types": types, "cm": vars(Meth)["cm"], "sm": vars(Meth)["sm"], "bm": Meth.cm, "meth": Meth().m,
        "print": print, "fromkeys": dict.fromkeys, "utext": Text("a"), "colour": Colour.RED, "level": Level.LOW, "Colour": Colour,
        "date": datetime.date(2020, 1, 1),
    }


OBJS = None


def obj(name):
    global OBJS
    if name in FRESH:
        return FRESH[name]()
    if OBJS is None:
        OBJS = _objs()
    return OBJS[name]


def node(name, s):
    if isinstance(s, str):
        if s == "int":
            return D.sym_int(name + ".i", -1, 2)
        if s == "str":
            return D.sym_str(name + ".s", 1, [(32, 126)])
        if s == "float":
            return D.sym_bool(name + ".f") if False else Lazy(name + ".f", [1.0, 0.0])
        if s == "float1":
            return 1.0
        if s == "int1":
            return 1
        if s == "bool":
            return D.sym_bool(name + ".b")
        if s == "None":
            return None
        if s == "bytes":
            return b"x"
        if s == "complex":
            return 1j
        if s.startswith("obj:"):
            return obj(s[4:])
        if s.startswith("="):
            return s[1:]
        raise ValueError(s)
    if isinstance(s, (int, float)) or s is None:
        return s
    op, *a = s
    if op == "any":
        return Lazy(name, [(lambda x=x, i=i: node(f"{name}|{i}", x)) for i, x in enumerate(a)])
    if op == "list":
        return [node(f"{name}.{i}", x) for i, x in enumerate(a)]
    if op == "tuple":
        return tuple(node(f"{name}.{i}", x) for i, x in enumerate(a))
    if op == "set":
        return SSet([node(f"{name}.{i}", x) for i, x in enumerate(a)])
    if op == "frozenset":
        return SFrozenSet([node(f"{name}.{i}", x) for i, x in enumerate(a)])
    if op == "iter":
        return SymIter([node(f"{name}.{i}", x) for i, x in enumerate(a)])
    if op in ("dict", "proxy"):
        return mapping(name, op, a)
    if op == "func":
        return function(name, a[0])
    if op == "series":
        return SymSeries([node(f"{name}.{i}", x) for i, x in enumerate(a)])
    if op in ("frame", "flat"):
        return SymFrame([node(f"{name}.c{i}", k) for i, (k, _) in enumerate(a)],
                        [[node(f"{name}.{i}.{j}", x) for j, x in enumerate(v)] for i, (_, v) in enumerate(a)], op == "flat")
    if op == "rows":  # a frame with these labels of its rows
        f = node(name, a[1])
        return SymFrame(f._labels, f._cols, f._flat, a[0])
    if op == "sym":
        return D.sym_str(name, a[0], DOMS[a[1]])
    if op == "text":  # literal pieces and symbolic ones
        return D.mk(tuple(c for i, x in enumerate(a) for c in
                          (x if isinstance(x, str) else D.sym_chars(f"{name}.{i}", x[0], DOMS.get(x[1]) or D.chars(x[1])))))
    raise ValueError(s)


def pick(name, x):
    return D.Lazy(name, list(x)) if isinstance(x, list) else x


def scope():
    import typing

    return {**vars(typing), "Foo": Foo, "__name__": "user"}


def function(name, s):
    """A callable with symbolic parameter names; see symx.funcs.SymFunction."""
    memo = []

    def params():
        if memo:
            return memo[0]
        kinds = D.Lazy(name + ".kinds", s["kinds"])
        while isinstance(kinds, Lazy):
            kinds = kinds._resolve()
        defs = s.get("def", ["1"])
        pos = [i for i, k in enumerate(kinds) if k in ("PO", "PK")]
        d0 = D.Lazy(name + ".d0", list(range(len(pos), -1, -1))) if pos and defs else len(pos)
        d0 = d0._resolve() if isinstance(d0, Lazy) else d0
        out = []
        for i, k in enumerate(kinds):
            n = s["names"][i] if "names" in s else D.sym_str(f"{name}.n{i}", s.get("len", 1), [(95, 95), (97, 122)])
            if isinstance(n, list):
                n = D.Lazy(f"{name}.n{i}", n)._resolve()
            for o, *_ in out:
                t = str_eq(n, o)
                eng().assume(z3.BoolVal(not t) if isinstance(t, bool) else z3.Not(t))
            if type(n) is not str and len(n) == 2:
                for w in ("if", "in", "is", "as", "or"):
                    eng().assume(z3.Not(str_eq(n, w)))
            d = ""
            if i in pos and pos.index(i) >= d0:
                d = pick(f"{name}.d{i}", defs)
            elif k == "KO" and defs:
                d = pick(f"{name}.d{i}", ["", *defs])
            out.append((n, k, pick(f"{name}.a{i}", s.get("ann", "")), d))
        memo.append(out)
        return out

    return SymFunction({
        "name": s.get("name", "fun"), "params": params, "ret": pick(name + ".ret", s.get("ret", "")), "body": pick(name + ".body", s.get("body", "pass")),
        "async": pick(name + ".async", s.get("async", False)), "wrap": pick(name + ".wrap", s.get("wrap", "")),
        "source": pick(name + ".source", s.get("source", True)), "outer": pick(name + ".outer", s.get("outer", "")),
    }, scope())


def mapping(name, op, pairs):
    opt = [i for i, (k, _) in enumerate(pairs) if isinstance(k, str) and k.endswith("?")]

    def build(mask):
        out = []
        for i, (k, v) in enumerate(pairs):
            if isinstance(k, str):
                if i in opt:
                    if not mask >> opt.index(i) & 1:
                        continue
                    k = k[:-1]
                key = k
            elif k[0] == "k":
                key = node(f"{name}.k{i}", k[1])
            else:
                key = node(f"{name}.k{i}", k)
            out.append((key, node(f"{name}.{i}", v)))
        d = SDict(out)
        return types.MappingProxyType(d) if op == "proxy" else d

    if not opt:
        return build(0)
    n = 1 << len(opt)
    return Lazy(name + ".keys", [(lambda m=m: build(m)) for m in range(n - 1, -1, -1)])


# ------------------------------------------------------------------ strategies
def strat(flags):
    """Symbolic ParsingStrategies arguments; a value in `flags` that is not "*" is used as it is."""
    out = {}
    for k, v in flags.items():
        if k == "l":
            out["list_strategy"] = D.enum("st.list", "list", "Sequence") if v == "*" else v
        elif k == "t":
            out["tuple_size_strategy"] = D.enum("st.tuple", "fixed", "any size") if v == "*" else v
        elif k == "d":
            out["dict_strategy"] = D.enum("st.dict", "TypedDict", "Mapping", "dict") if v == "*" else (
                D.enum("st.dict", *v) if isinstance(v, list) else v)
        elif k == "r":
            out["typed_dict_read_only_values"] = D.sym_bool("st.ro") if v == "*" else v
        elif k == "h":
            out["min_height_to_define_type_alias"] = D.sym_int("st.h", 0, 7) if v == "*" else v
        elif k == "m":
            out["merge_different_typed_dicts_if_similarity_above"] = D.sym_int("st.m", 1, 100) if v == "*" else v
        elif k == "n":
            if isinstance(v, list):
                out["check_max_n_elements_within_container"] = D.sym_int("st.n", v[0], v[1])
            elif v == "*":
                out["check_max_n_elements_within_container"] = Lazy("st.none", [None, lambda: D.sym_int("st.n", 0, 5)])
            else:
                out["check_max_n_elements_within_container"] = v
        elif k == "p":
            out["pandas_strategies"] = (
                D.enum("st.pd", "Full type hint", "Type hint only for autocomplete", "Do not type hint columns") if v == "*" else v)
        elif k == "k":
            out["key_used_as_doc"] = v
        else:
            raise ValueError(k)
    return out


# ------------------------------------------------------------------ the families
S5 = ["any", "int", "str", "float", "bool", "None"]
S3 = ["any", "int", "str", "None"]
S2 = ["any", "int", "str"]
NUM = ["any", "int", "float", "bool"]


def J(data, **st):
    return {"data": data, "st": st}


def fam_scalars():
    return [J(["any", "int", "str", "float", "bool", "None", "bytes", "complex", "obj:range", "obj:slice", "obj:bytearray"])]


def fam_objects():
    names = ["foo", "bar", "math", "f1", "f2", "f3", "lam0", "lam2", "int", "Foo", "str", "range", "slice", "arr_i", "arr_f", "textio", "bytesio",
             "odict", "ddict", "ddict1", "names", "point", "utext", "colour", "level", "Colour", "date", "deque", "frozen", "bag", "names2", "odict2", "points", "bags", "FOOs", "arr_u", "arr_b", "arr_v", "foods", "Foods", "foo2", "Foo2"]
    out = []
    for n in names:
        out.append(J("obj:" + n))
        out.append(J(["list", "obj:" + n, S5]))
        out.append(J(["dict", ["a", "obj:" + n], ["b", ["any", "int", "obj:foo", "None"]]], d="*"))
        out.append(J(["tuple", ["any", "int", "obj:" + n], ["any", "obj:foo", "obj:" + n]], t="*"))
    for n, like in (("odict", ["dict", ["a", "int1"], ["b?", "str"]]), ("ddict", ["dict", ["a", ["any", "int1", "str"]], ["b?", "str"]]), ("names", ["list", "int1", "str"]), ("point", ["tuple", "int1", "str"]),
                    ("utext", "str"), ("level", "int1")):
        for kind in ("list", "tuple"):
            out.append(J([kind, ["any", "obj:" + n, "int1"], like, ["any", "obj:" + n, "str"]], t="*", d="*", l="*"))
        out.append(J(["dict", ["p", ["any", "obj:" + n, "int1"]], ["q", like], ["r", ["any", "obj:" + n, "str"]]], d="*"))
    arrays = ["any", "obj:arr_i", "obj:arr_i4", "obj:arr_f", "obj:arr_f4"]
    odd = ["any", "obj:oddd", "obj:oddl", "obj:oddt", "obj:oddp"]
    texts = ["any", "obj:arr_u", "obj:arr_u2", "obj:arr_b", "obj:arr_o", "obj:arr_d"]
    frozen = ["any", "obj:frozen", "obj:bag", ["set", "int1"], ["frozenset", "int1"]]
    more = ["any", "obj:arr_v", "obj:arr_0", "obj:arr_be", "obj:arr_c", "obj:arr_i"]
    for x in (arrays, odd, texts, frozen, more):
        for kind in ("list", "tuple"):
            out.append(J([kind, x, x], t="*"))
        out.append(J(["dict", ["a", x], ["b", ["list", x]]], d="*"))
        out.append(J(["list", ["dict", ["a", x], ["b", "int1"]], ["dict", ["a", x]]], m=50))
    # classes whose names have much in common, next to each other and far down
    same = ["any", "obj:foo", "obj:foods", "obj:foods2", "obj:Foods", "obj:Foods2"]
    for kind in ("list", "tuple", "iter"):
        out.append(J([kind, same, same], t="*"))
        out.append(J([kind, *[["list", ["list", ["list", ["list", ["list", same]]]]]] * 2]))
    out.append(J(["dict", ["a", ["list", same]], ["b", ["list", same]]], d="*"))
    return out


def fam_flat(n_max=4):
    """One container of scalars."""
    out = []
    for kind in ("list", "tuple", "set", "frozenset", "iter"):
        for n in range(0, n_max + 1):
            fl = {"list": {"l": "*"}, "tuple": {"t": "*"}}.get(kind, {})
            el = S5 if n <= 3 else ["any", "int", "float", "None"]
            out.append(J([kind] + [el] * n, **fl))
    return out


def fam_flat_dict():
    out = []
    for op in ("dict", "proxy"):
        out.append(J([op], d="*", r="*"))
        out.append(J([op, ["a", S5]], d="*", r="*"))
        out.append(J([op, ["a", S5], ["b", S5]], d="*"))
        out.append(J([op, ["a", S3], ["b", S3], ["c", S3]], d="*"))
        out.append(J([op, [["k", S5], S2], [["k", S5], S2]], d="*"))
        out.append(J([op, [["k", ["any", "int", "str", "bool", "float"]], S5]], d="*"))
        out.append(J([op, *[[["k", ["any", "int1", "str", "float1", "None", "bytes", ["tuple", "int1"]]], "int1"]] * 3]))
        out.append(J([op, [["k", ["tuple", "int", "str"]], "int"], [["k", S3], ["list", "int"]]], d="*"))
    return out


def fam_nested(deep=False):
    """Containers of containers."""
    inner = ["any", "int", ["list"], ["list", S2], ["list", "int", "float"], ["tuple", S2], ["tuple", "int", "str"], ["set", "int"], ["dict", ["a", S2]]]
    out = []
    for kind in ("list", "tuple"):
        fl = {"list": {"l": "*"}, "tuple": {"t": "*"}}[kind]
        out.append(J([kind, inner], **fl))
        out.append(J([kind, inner, inner], **fl))
    small = ["any", "int", ["list", "int"], ["list", "str"], ["tuple", "int"], ["dict", ["a", "int"]]]
    for kind in ("list", "tuple", "iter"):
        out.append(J([kind, small, small, small], t="*" if kind == "tuple" else "fixed"))
    hs = ["any", "int", ["tuple", "int"], ["tuple", "int", "str"], ["frozenset", "int"], ["frozenset", "str"]]
    out.append(J(["list", ["set", hs, hs]], t="*"))
    out.append(J(["dict", ["a", inner]], d="*"))
    out.append(J(["dict", ["a", small], ["b", small]], d="*"))
    out.append(J(["dict", ["a", small], ["b", ["any", ["list", "int"], ["dict", ["a", "int"]]]], ["c", ["any", ["list", "str"], ["dict", ["a", "int"]], "int"]]], d="*"))
    out.append(J(["proxy", ["a", small], ["b", small]], d="*"))
    out.append(J(["proxy", ["a", ["proxy", ["x", S2]]], ["b", ["proxy", ["x", S2]]]], d="*"))
    out.append(J(["list", ["list", ["list", S3]], ["any", ["list", ["list", "int"]], ["list", ["tuple", "int"]], ["list"]]], l="*"))
    out.append(J(["tuple", ["tuple", ["tuple", S3], "int"], ["any", ["tuple", "int"], ["tuple", ["tuple", "str"], "int"]]], t="*"))
    return out


def fam_heights():
    """Depth-3 data against every alias threshold."""
    out = []
    leaf = ["any", "int", "str"]
    out.append(J(["list", ["list", ["list", leaf]], ["tuple", leaf]], h="*", l="*"))
    out.append(J(["dict", ["a", ["list", ["dict", ["b", leaf]]]], ["c", ["tuple", ["set", leaf]]]], h="*", d="*"))
    out.append(J(["dict", ["a", ["dict", ["b", ["dict", ["c", ["list", leaf]]]]]]], h="*", d="*"))
    out.append(J(["tuple", ["list", leaf], ["dict", ["a", ["list", leaf]]], ["frozenset", leaf]], h="*", t="*"))
    out.append(J(["proxy", ["a", ["list", leaf]], ["b", ["proxy", ["c", leaf]]]], h="*"))
    out.append(J(["list", ["any", "obj:lam2", "obj:f1", "obj:foo", "obj:arr_i", "obj:math"], ["list", leaf]], h="*"))
    deep = ["any", "int1", ["list", "int1"], ["tuple", ["list", "str"]]]
    for _ in range(5):
        deep = [["list", "tuple", "proxy", "iter"][_ % 4], deep] if _ != 2 else ["proxy", ["k", deep]]
    out.append(J(deep, h="*"))
    deep = ["any", ["list", "int1"], ["dict", ["a", ["list", "int1"]]]]
    for _ in range(5):
        deep = ["tuple", deep, "int1"] if _ % 2 else ["dict", ["a", deep]]
    out.append(J(deep, h="*", d="*"))
    out.append(J(["iter", ["list", leaf], ["list", ["list", leaf]]], h="*"))
    ser = ["any", ["series", "int1", leaf], ["series", ["list", leaf]], ["list", ["series", leaf]]]
    out.append(J(["list", ser, ["tuple", ["any", leaf, ["series", "int1"]]]], h="*"))
    out.append(J(["dict", ["a", ["proxy", ["b", ser]]], ["c", ["series", "int1"]]], h="*", d="*"))
    empty = ["any", ["list"], ["tuple"], ["set"], ["iter"], ["proxy"], ["dict"]]
    out.append(J(["list", ["tuple", ["list", ["tuple", empty]]]], h="*", t="*"))
    out.append(J(["dict", ["a", ["list", ["proxy", ["b", ["list", empty]], ["c", ["tuple", empty, "int1"]]]]]], h="*"))
    ln = ["any", "int1", ["list", "int1"], ["list", ["list", "int1"]], ["list", ["list", ["list", "int1"]]]]
    tn = ["any", "int1", ["tuple", "int1"], ["tuple", ["tuple", "int1"], "str"], ["tuple", "str", ["tuple", ["tuple", "int1"], "int1"]]]
    for kind in ("list", "tuple", "iter"):
        out.append(J([kind, ln, ln], h="*"))
        out.append(J([kind, ["tuple", ln, ln], "int1"], h="*"))
    out.append(J(["tuple", tn, tn], h="*", t="*"))
    out.append(J(["dict", ["a", ln], ["b", ln]], h="*", d="*"))
    out.append(J(["list", ["proxy", ["a", ln], ["b", ln]]], h="*"))
    out.append(J(["frozenset", ["any", "int1", ["frozenset", "int1"], ["frozenset", ["frozenset", "int1"]]], ["any", "int1", ["tuple", "int1"], ["tuple", ["tuple", "int1"], "str"]]], h="*"))
    return out


def fam_merge(thorough=False):
    """Sequences of string-keyed dicts: merging by similarity, required and optional keys."""
    out = []
    v = ["any", "int", "float1", "str"]
    o = ["any", "int", "str", "None", "float1", "bool"]
    two = ["dict", ["a?", "int"], ["b?", "int"], ["c?", "int"]]
    for kind in ("list", "tuple"):
        t = {"t": "*"} if kind == "tuple" else {}
        out.append(J([kind, two, two], m="*", **t))
        out.append(J([kind, ["dict", ["a?", o], ["b?", "int"]], ["dict", ["a?", o], ["b?", "int"]]], m="*", **t))
        out.append(J([kind, ["dict", ["a?", "int"], ["b?", "int"]], ["dict", ["a?", v], ["b?", "int"]], ["dict", ["a?", "int"], ["b?", "int"]]], m="*", **t))
        out.append(J([kind, ["dict", ["a", v]], ["any", "int", ["dict", ["a", v], ["b?", "int"]]], ["any", "int", ["dict", ["b", "int"], ["a?", "int"]]]], m="*", **t))
    p = ["dict", ["a", "int"], ["b?", "int"], ["c?", "str"]]
    out.append(J(["list", p, p, p], m="*", r="*"))
    out.append(J(["list", ["dict", ["a?", "int"]], ["dict", ["a?", "int"]]], m=50))
    # values that are containers
    c = ["any", ["list", "int"], ["list", "str"], ["list"], ["list", "int", "str"]]
    out.append(J(["list", ["dict", ["a", c], ["b?", "int"]], ["dict", ["a", c]]], m=["*", 50][1]))
    cd = ["any", ["dict", ["x", "int"]], ["dict", ["x", "str"]], ["dict", ["y", "int"]], ["dict", ["x", "int"], ["y", "int"]]]
    out.append(J(["list", ["dict", ["a", cd]], ["dict", ["a", cd], ["b?", "int"]]], m=50))
    ct = ["any", ["tuple", "int"], ["tuple", "str"], ["tuple", "int", "int"], ["set", "int"], ["set", "str"]]
    out.append(J(["list", ["dict", ["a", ct]], ["dict", ["a", ct], ["b?", "int"]]], m=50, t="*"))
    # lists of lists of dicts
    ll = ["any", ["list", ["dict", ["a", "int"], ["b", "int"]]], ["list", ["dict", ["a", "int"]]], ["list", ["dict", ["a", "int"], ["b", "int"]], ["dict", ["a", "int"]]]]
    out.append(J(["list", ll, ll], m=50))
    out.append(J(["dict", ["p", ll], ["q", ll]], m=50))
    out.append(J(["tuple", ll, ll, ["dict", ["p", ll]]], m=50))
    # four and five dicts
    q = ["dict", ["a", "int"], ["b?", "int"]]
    out.append(J(["list", q, q, q, ["dict", ["a", "int"], ["b?", "int"], ["c?", "int"]]], m=50))
    out.append(J(["list", q, ["dict", ["a", "int"], ["c", "int"]], q, ["dict", ["a", "int"], ["d", "int"]], q], m=["*", 10][1]))
    out.append(J(["iter", q, ["dict", ["a", v]], q], m=50))
    return out


def fam_dictdict(thorough=False):
    """Dicts whose values are dicts: same and different shapes under different keys."""
    out = []
    x = ["dict", ["a?", "int"], ["b?", "int"]]
    y = ["any", ["dict", ["a", "int"]], ["dict", ["a", "str"]], ["dict", ["b", "int"]], ["list", "int"], ["list", "str"], "int"]
    out.append(J(["dict", ["p", x], ["q", x]], d="*"))
    out.append(J(["dict", ["p", y], ["q", y], ["r", y]], d=["TypedDict", "dict"]))
    out.append(J(["dict", ["p", ["dict", ["s", x]]], ["q", ["dict", ["s", x]]]]))
    out.append(J(["dict", ["p", ["dict", ["s", ["dict", ["a", S3]]], ["t", S2]]]], d="*"))
    out.append(J(["list", ["dict", ["p", ["dict", ["a", S2]]]], ["dict", ["p", ["dict", ["a", S2]]], ["q?", ["dict", ["a", S2]]]]], m=50))
    return out


def fam_sim(thorough=False):
    """Sequences of dictionaries against every similarity threshold."""
    out = []
    v = ["any", "int1", "str", "None"]
    c = ["any", ["list", "int1"], ["list", "str"], ["tuple", "int1"], ["dict", ["x", "int1"]], ["dict", ["y", "int1"]], "int1"]
    three = ["dict", ["a?", "int1"], ["b?", "int1"], ["c?", "int1"]]
    out.append(J(["list", ["dict"] + [["k%d" % i, "int1"] for i in range(50)],
                  ["any", *[["dict"] + [["k%d" % i, "int1"] for i in range(n)] for n in (28, 29, 30, 1, 49)]]], m="*"))
    for kind, st in (("list", {}), ("tuple", {"t": "*"}), ("iter", {})):
        out.append(J([kind, three, three], m="*", **st))
        out.append(J([kind, ["dict", ["a?", v], ["b?", v]], ["dict", ["a?", v], ["b?", v]]], m=["*", 50][kind == "iter"], **st))
        out.append(J([kind, ["dict", ["a", c], ["b?", "int1"]], ["dict", ["a", c], ["c?", "int1"]]], m="*", **st))
        out.append(J([kind, ["dict", ["a?", "int1"], ["b?", "int1"]], ["any", "int1", ["list", "int1"]],
                      ["dict", ["a?", "int1"], ["b?", "int1"]]], m="*", **st))
        out.append(J([kind, ["dict", ["a", "int1"], ["b?", "int1"]], ["dict", ["a", "int1"], ["c?", v]],
                      ["dict", ["a?", "int1"], ["c?", v]]], m="*", **st))
        out.append(J([kind, ["dict", ["a", v]], ["dict", ["a", v]], ["dict", ["a", v], ["b", "int1"]]], m="*", **st))
    out.append(J(["list", ["dict", ["a", "int1"], ["b", "int1"], ["c?", "int1"], ["d?", "int1"], ["e?", "int1"]],
                  ["dict", ["a", "int1"], ["b?", "int1"], ["c?", "int1"], ["f?", "int1"]]], m="*"))
    out.append(J(["list", ["dict", ["a?", "int1"]], ["dict", ["a?", "int1"]], ["dict", ["a?", "int1"]], ["dict", ["a?", "int1"], ["b?", "int1"]]], m="*"))
    if thorough:
        for kind in ("list", "tuple"):
            out.append(J([kind, three, three, three], m="*"))
            out.append(J([kind, three, ["dict", ["a?", v], ["b?", "int1"], ["c?", "int1"]], three], m="*"))
            out.append(J([kind] + [["dict", ["a?", "int1"], ["b?", "int1"]]] * 4, m="*"))
    # every percentage there is
    least = {}
    for total in range(100, 0, -1):
        for common in range(1, total):
            least[100 * common // total] = (common, total)
    for k in range(12):
        pairs = [least[q] for q in sorted(least)[k::12]]
        out.append(J(["any", *[[["list", "tuple", "iter"][k % 3], *([a, b] if k % 2 else [b, a])] for c, t in pairs
                               for a, b in [[["dict", *[["k%d" % i, "int1"] for i in range(n)]] for n in (c, t)]]]], m="*"))
    both = ["any", "str", "dict2"]
    both[2] = ["dict", ["a", "int1"], ["b?", "int1"]]
    for kind in ("list", "tuple", "iter"):
        out.append(J([kind, both, both, ["any", "int1", both[2]], both, both[2]], m=50))
    other = ["any", "None", "str", "bool", ["list", "int1"], ["list"], ["dict", [["k", "int1"], "int1"]],
             ["set", "int1"], ["proxy", ["a", "int1"]], ["dict"], "obj:f1", "obj:Foo", ["tuple", "None"]]
    two = ["dict", ["a", "int1"], ["b?", "int1"]]
    for kind, st in (("list", {}), ("tuple", {"t": "*"}), ("iter", {})):
        for xs in ([other, two, two], [two, other, two], [two, two, other]):
            out.append(J([kind, *xs], m="*", **st))
    return out


def fam_max(thorough=False):
    """Containers longer and shorter than the limit on the elements looked at."""
    out = []
    leaf = ["any", "int1", "str"]
    n = [1, 4 if not thorough else 5]
    k = 5 if thorough else 4
    none = {"n": None}
    for kind in ("list", "tuple", "set", "frozenset", "iter"):
        el = [["any", i, float(i)] for i in range(k)] if kind in ("set", "frozenset") else [leaf] * k
        out.append(J([kind] + el, n=n, t="*"))
        out.append(J([kind] + el[:3], **none))
        if kind not in ("set", "frozenset"):
            out.append(J([kind, [kind, leaf, leaf, leaf], [kind, leaf, "str"], "None"], n=[1, 4], t="*" if kind == "tuple" else "fixed"))
    for op in ("dict", "proxy"):
        out.append(J([op, ["a", leaf], ["b", ["list", leaf, leaf]], ["c", ["any", "int1", "None"]]], n=[1, 4], d="*"))
        out.append(J([op, ["a", [op, ["x", leaf], ["y", leaf], ["z", "None"]]], ["b", "int1"]], n=[1, 4], d="*"))
        out.append(J([op, [["k", "int1"], leaf], [["k", "str"], leaf], [["k", "None"], leaf]], n=[1, 4], d="*"))
        out.append(J([op, ["a", ["tuple", leaf, leaf, leaf]], ["b", ["set", ["any", 0, 0.0], ["any", 1, 1.0]]]], n=[1, 3], d="*", t="*"))
    d = ["dict", ["a?", "int1"], ["b?", "int1"]]
    out.append(J(["series", leaf, leaf, leaf], n=[1, 4]))
    out.append(J(["list", ["series", leaf, leaf, "None"], ["series", "int1", leaf]], n=[1, 3]))
    out.append(J(["frame", ["=a", [leaf, leaf, "None"]], ["=b", ["int1", leaf, leaf]]], n=[1, 4], p="*"))
    for kind in ("list", "tuple", "iter", "dict", "proxy", "series"):
        big = [["int1"] * 498 + [leaf] * 3, [[f"k{i}", "int1" if i < 498 else leaf] for i in range(501)]][kind in ("dict", "proxy")]
        out.append(J([kind, *big], n=[499, 501], d="Mapping", t="any size"))
    out.append(J(["list", d, d, d], n=[1, 4], d="*"))
    out.append(J(["tuple", d, ["list", d, d], leaf], n=[1, 4], d="*"))
    out.append(J(["list"] + [["list", leaf, leaf]] * 3, n=[1, 4], l="*"))
    for a in ("list", "tuple", "iter", "frozenset", "dict", "proxy"):
        def wrap(x, a=a):
            return [a, x] if a not in ("dict", "proxy") else [a, ["a", x]]
        for last in ("list", "tuple", "set", "proxy"):
            pair = {"proxy": [["a", leaf], ["b", leaf], ["c", "None"]], "set": [["any", i, float(i)] for i in range(3)]}.get(last, [leaf, leaf, "None"])
            if a == "frozenset" and last != "tuple":
                continue
            inner = [last] + pair
            out.append(J(wrap(wrap(inner)), n=[1, 3], d="Mapping"))
            if last == "tuple":
                out.append(J(wrap(wrap(wrap(wrap(inner)))), n=[1, 3]))
    return out


def nested_sets(s):
    """Has a set of other than plain values (its own order is then part of the input)?"""
    if isinstance(s, (list, tuple)):
        if s and s[0] in ("set", "frozenset"):
            return any(not isinstance(x, str) for x in _leaves(s[1:]))
        return any(nested_sets(x) for x in s)
    return False


def _leaves(xs):
    for x in xs:
        if isinstance(x, list) and x and x[0] == "any":
            yield from _leaves(x[1:])
        else:
            yield x


def fam_imports():
    """Different sets of imports."""
    kinds = ["any", "int1", ["list"], ["tuple", "int1"], ["set", "int1"], ["frozenset", "int1"], ["dict", ["a", "int1"]],
             ["proxy", ["a", "int1"]], "obj:arr_i", "obj:lam2", "obj:math", "obj:int", "None", ["dict", [["k", "int1"], "int1"]]]
    out = [J(["list", kinds], l="*", d="*"), J(["tuple", kinds, kinds]), J(["dict", ["a", kinds], ["b", kinds]], r="*"),
           J(["list", ["dict", ["a", kinds], ["b?", "int1"]], ["dict", ["a", "int1"]]], m=50), J(kinds, d="*")]
    return out


def fam_deterministic():
    """Many keys, several of them sharing the type of their value, merged and optional ones."""
    v = ["any", ["list", "int1"], ["list", "str"], ["tuple", "int1"]]
    out = []
    out.append(J(["dict", ["a", v], ["b", v], ["c", v], ["d", ["list", "int1"]]], h=0))
    out.append(J(["dict", ["bb", v], ["aa", v], [["k", "int1"], v]], h=0))
    d = ["dict", ["zeta?", "int1"], ["beta?", "int1"], ["alpha?", ["any", "int1", "str"]], ["gamma", "int1"]]
    out.append(J(["list", d, d], m=30))
    out.append(J(["tuple", d, ["dict", ["omega", "int1"], ["gamma", "int1"], ["beta?", "int1"]]], m=10))
    out.append(J(["set", "str", "int1", "None", "float1", "bytes"], h=0))
    out.append(J(["dict", ["a", ["set", "str", "int1"]], ["b", ["frozenset", "str", "None"]]], h=0))
    return out


def fam_td():
    """TypedDicts in every position, with the read-only flag."""
    out = []
    o = ["dict", ["a", "int"], ["b?", S2], ["c?", ["list", "int"]]]
    for kind in ("list", "tuple", "iter"):
        out.append(J([kind, o, o], r="*", m=50))
    out.append(J(["dict", ["p", o], ["q", ["dict", ["r", o]]]], r="*"))
    out.append(J(["proxy", ["p", o], ["q", o]], r="*"))
    out.append(J(["dict", ["p", ["list", o, o]], ["class", o]], r="*"))
    out.append(J(["dict", [["sym", 1, "KEY"], S3], ["b?", "int"]], r="*"))
    out.append(J(["list", ["dict", [["sym", 1, "ab"], "int"], ["z", "int"]], ["dict", [["sym", 1, "ab"], "int"], ["z", "int"]],
                  ["dict", [["sym", 1, "ab"], "int"]]], m=["*", 30][1]))
    out.append(J(["dict", ["a", "int1"], [["text", [1, "_a"], "___docstring_hidden_key_", [1, "_a"]], "int1"]], d="*"))
    e = ["dict", ["a?", "int1"], ["b?", "int1"], ["c?", "int1"], ["d?", "int1"]]
    out.append(J(["list", e, e], m=1))
    out.append(J(["tuple", ["dict", ["a?", "int1"], ["b?", "int1"]], "int", ["dict", ["a?", "int1"], ["b?", "int1"]], ["dict", ["a?", "int1"], ["b?", "int1"]]], m=1))
    return out


def fam_keys(thorough=False):
    """Symbolic key text."""
    out = []
    for n in (1, 2):
        out.append(J(["dict", [["sym", n, "KEY"], "int"]]))
        out.append(J(["dict", [["sym", n, "KEY"], ["list", "int"]]]))
    out.append(J(["dict", [["sym", 3, "WORD"], ["list", "int"]]]))
    out.append(J(["list", ["dict", [["sym", 4, "_a"], ["dict", [["sym", 3, "_a"], "int"]]]], ["dict", ["z", "int"]]]))
    out.append(J(["dict", [["sym", 1, "KEY"], "int"], [["sym", 1, "KEY"], "str"]]))
    out.append(J(["dict", [["sym", 1, "KEY"], ["list", "int"]], [["sym", 1, "KEY"], ["list", "str"]]]))
    out.append(J(["dict", [["sym", 2, "WORD"], ["list", "int"]], [["sym", 2, "IDENT"], ["dict", ["x", "int"]]]]))
    out.append(J(["dict", ["k1", ["dict", [["sym", 2, "WORD"], "int"]]]]))
    for t in ("a" * 31, "Some words " * 4, "k" * 99):
        out.append(J(["dict", [["text", t, [1, "KEY"]], ["list", "int1"]], [["text", t, [1, "ab"], "_b"], ["any", ["dict", ["x", "int1"]], ["list", "str"]]]]))
    out.append(J(["list", ["dict", [["sym", 1, "WORD"], "int"], ["z", "int"]], ["dict", [["sym", 1, "WORD"], "int"], ["z", "int"]]], m="*"))
    out.append(J(["dict", [["sym", 2 if thorough else 1, "LATIN1"], "int"]]))
    return out


def fam_spelling():
    """Every kind of container next to, and inside of, every other one, with all the strategies open."""
    leaf = ["any", "int1", "str"]
    kinds = ["any", ["list", leaf], ["tuple", leaf, "int1"], ["set", "int1"], ["frozenset", "int1"], ["dict", ["a", leaf]],
             ["proxy", ["a", "int1"]], ["dict", [["k", "int1"], leaf]]]
    out = []
    for kind in ("list", "tuple"):
        out.append(J([kind, kinds, kinds], l="*", t="*"))
        out.append(J([kind, [kind, kinds], [kind, kinds]], l="*", t="*"))
    out.append(J(["dict", ["p", kinds], ["q", kinds]], d="*", t="*"))
    out.append(J(["dict", ["p", ["list", kinds]], ["q", ["list", kinds]]], l="*", d="*"))
    out.append(J(["list", ["dict", ["p", kinds]], ["dict", ["p", kinds]]], l="*", t="*"))
    out.append(J(["proxy", ["p", kinds], ["q", ["tuple", kinds]]], d="*", t="*"))
    out.append(J(["tuple", ["tuple"], ["list"], ["set"], ["dict"], ["proxy"], ["frozenset"]], l="*", t="*", d="*"))
    hs = ["any", "int1", ["tuple", "int1"], ["frozenset", "int1"], ["tuple", ["frozenset", "int1"]], ["frozenset", ["tuple", "int1"]]]
    out.append(J(["set", hs, hs], t="*"))
    out.append(J(["frozenset", hs, hs], t="*"))
    out.append(J(["tuple", ["any", ["set", "int1"], ["frozenset", "int1"]], ["any", ["set", "int1"], ["frozenset", "int1"]]], t="*"))
    return out


def fam_pairs():
    """Two mappings, or two of anything, next to each other whose keys or depths differ."""
    out = []
    key = ["any", "int1", "bytes", "None", "float1", ["tuple", "int1"], "=q"]
    leaf = ["any", "int1", "str"]
    for op in ("dict", "proxy"):
        for kind in ("list", "tuple"):
            out.append(J([kind, [op, [["k", key], leaf]], [op, [["k", key], "int1"]]], d="*" if op == "dict" else "TypedDict", t="*" if kind == "tuple" else "fixed"))
        out.append(J(["dict", ["a", [op, [["k", key], "int1"]]], ["b", [op, [["k", key], "int1"]]]], d=["TypedDict", "dict"]))
        out.append(J(["list", ["list", [op, [["k", key], "int1"]]], ["list", [op, [["k", key], "int1"]], [op, [["k", key], "int1"]]]]))
    return out


def fam_names():
    """Requested names in any letter case, whose aliases sort anywhere among the other types."""
    out = []
    for data in (["list", NUM, "float1", ["list", ["list", "int1"]]], ["tuple", NUM, ["any", ["list", "int1"], "None"], NUM],
                 ["dict", ["a", ["list", NUM, "float1", ["list", ["list", "str"]]]], ["b", ["dict", ["c", "int1"]]]],
                 ["set", NUM, "float1", ["frozenset", ["tuple", "int1"]]]):
        for cn in (["sym", 1, "LETTER"], ["sym", 2, "_a"]):
            j = J(data, t="any size", h=0)
            j["cn"] = cn
            out.append(j)
            if cn[1] == 1:
                out.append({**J(data, d=["dict", "Mapping"]), "cn": cn})
    return out


def fam_long():
    """Longer containers with one odd element out at every position."""
    out = []
    odd = ["any", "int1", "str"]
    for kind in ("list", "tuple"):
        out.append(J([kind] + [odd] * 7, t="*" if kind == "tuple" else "fixed"))
    out.append(J(["list"] + [["any", ["list", "int1"], ["tuple", "int1"]]] * 4))
    wide = ["int1", "str", ["list", "int1"], ["any", "int1", "None"], ["dict", ["a", "int1"]]]
    for op in ("dict", "proxy"):
        out.append(J([op, *[[f"k{i}", wide[i % len(wide)]] for i in range(17)]], r="*"))
        out.append(J([op, *[[f"k{i}", wide[i % len(wide)]] for i in range(17)], [["sym", 1, "WORD"], "int1"]]))
    out.append(J(["list", *[["dict", ["a", "int1"], [f"k{i // 2}", "int1"]] for i in range(16)], ["dict", ["a", odd]]], m=1))
    out.append(J(["tuple", *[["list", wide[i % len(wide)]] for i in range(14)], ["list", odd]], t="*"))
    out.append(J(["list", "int", "str", "float", "bool", "None", ["list", "int"], ["tuple", "int"], ["any", "bytes", "complex"], ["dict", ["a", "int"]]], l="*"))
    return out


# What `all_data` stays within, for the evidence.
ALL_DATA = (
    "values of up to 4 levels and 5 elements per container (one list of 9 elements, rows of 7): lists, tuples, sets, frozensets, iterators, dictionaries and mapping "
    "proxies of integers, booleans, texts, floats, None, bytes, complex, ranges, slices, bytearrays, arrays, modules, classes, callables and instances, whose kinds, "
    "presence and nesting are open as the families of harness/specs.py list; up to three dictionaries side by side with any presence pattern of up to three keys; keys of up "
    "to 2 symbolic characters (3 and 4 over smaller alphabets, Latin-1 for 1 character, 2 thorough); class names of up to 2 symbolic letters; every list, tuple, dictionary and read-only strategy, alias "
    "heights 0..4, similarity 1..100 and the limit on elements unset"
)


def all_data(tier="quick"):
    js = []
    for f in (fam_scalars, fam_objects, fam_flat, fam_flat_dict, fam_nested, fam_merge, fam_dictdict, fam_td, fam_keys, fam_heights, fam_pairs, fam_names, fam_long):
        for j in f():
            j["fam"] = f.__name__[4:]
            js.append(j)
    return js
