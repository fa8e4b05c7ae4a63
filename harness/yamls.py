"""YAML files with symbolic parts, read through `from_yaml_file`."""
from __future__ import annotations

import os
import pathlib
import shutil
import tempfile

from symx import core, vfs
from symx.data import EnumStr, Lazy, concrete, enum, sym_bool, sym_chars, mk, force, chars
from symx.containers import SDict
from symx.runner import Exc, Harness, guarded
from symx.symstr import SymStr, cat
from symx.uniform import uniform_source

from . import miniyaml, specs
from .base import texts_in

def ways(where):
    """The positions asked for: several, one by its name, or those there are by default."""
    return ("side",) if where == "default" else (where,) if isinstance(where, str) else where


WHERE = ["default", "above", "below", ("side",), ("above",), ("below",), ("above", "side"), ("side", "above"), ("below", "side"), ("side", "below")]


def piece(name, x):
    if isinstance(x, str):
        return x
    n, dom = x
    if isinstance(n, list):  # any of these lengths
        return Lazy(name, [(lambda k=k: mk(sym_chars(f"{name}.{k}", k, specs.DOMS.get(dom) or chars(dom)))) for k in n])._resolve()
    return mk(sym_chars(name, n, specs.DOMS.get(dom) or chars(dom)))


def text_of(lines):
    """line: list of pieces; ["?", line...] may be absent altogether; ["|", line, line...] one of these."""
    out = []
    for i, ln in enumerate(lines):
        while isinstance(ln, list) and ln and ln[0] in ("?", "|"):
            if ln[0] == "?":
                if not bool(sym_bool(f"opt{i}")):
                    ln = None
                else:
                    ln = ln[1] if len(ln) == 2 else ln[1:]
            else:
                k = Lazy(f"alt{i}", list(range(1, len(ln))))._resolve()
                ln = ln[k]
        if ln is None:
            continue
        if isinstance(ln, str):
            ln = [ln]
        out.append(cat(*[piece(f"t{i}.{j}", x) for j, x in enumerate(ln)]))
    res = out[0]
    for x in out[1:]:
        res = cat(res, "\n", x)
    return res


class YamlHarness(Harness):
    """(text with comments read, text of the loaded data, the file afterwards, files that were not there)"""

    def build(self, p):
        inp = {"text": text_of(p["lines"])}
        w = p.get("where", "*")
        inp["where"] = Lazy("where", WHERE) if w == "*" else Lazy("where", [x if isinstance(x, str) else tuple(x) for x in w]) if isinstance(w[0], list) else tuple(w)
        for k, v in specs.strat(p.get("st", {})).items():
            inp["st_" + k] = v
        if "name" in p:
            inp["name"] = Lazy("name", p["name"])
        if "kind" in p:
            inp["kind"] = Lazy("kind", p["kind"])
        return inp

    def enter(self, symbolic):
        if symbolic:
            core.eng().extra["fs"] = vfs.FS()
            core.eng().extra["fs"].add_dir("/tmp")
            core.eng().extra["fs"].add_dir("/w")
            return None
        d = tempfile.mkdtemp(prefix="symx-yaml-")
        old, tempfile.tempdir = tempfile.tempdir, os.path.join(d, "tmp")
        os.mkdir(tempfile.tempdir)
        os.mkdir(os.path.join(d, "w"))
        return d, old

    def leave(self, symbolic, ctx):
        if not symbolic:
            d, tempfile.tempdir = ctx
            shutil.rmtree(d)

    def run(self, L, inp, p):
        text = inp["text"]
        where = inp["where"]._resolve() if isinstance(inp["where"], Lazy) else inp["where"]
        sym = L.realm.symbolic
        name, kind = inp.get("name", "f.yaml"), inp.get("kind", "str")
        name = name._resolve() if isinstance(name, Lazy) else name
        kind = kind._resolve() if isinstance(kind, Lazy) else kind

        def given(q):
            """Loaders take what `from_yaml_file` was given, a text or a path."""
            if isinstance(q, str) != (kind == "str"):
                raise TypeError(f"a loader for {kind} got something else")

        make = (vfs.VPath if sym else pathlib.Path) if kind == "Path" else str
        if sym:
            fs = core.eng().extra["fs"]
            path = "/w/" + name
            fs.files[path] = text

            def read(q):
                return fs.read(vfs.v(q)._s)

            def loader(q):
                given(q)
                return miniyaml.load(read(q))
        else:
            import yaml

            path = os.path.join(os.path.dirname(tempfile.tempdir), "w", name)
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(text)

            def read(q):
                with open(q, encoding="utf-8", newline="") as f:
                    return f.read()

            def loader(q):
                given(q)
                with open(q, encoding="utf-8") as f:
                    return yaml.safe_load(f)

        st = {k[3:]: v for k, v in inp.items() if k.startswith("st_")}

        def hints(comments):
            m = L[""]
            k = {} if comments == "default" else {"comments_are": comments}
            return m.LazyTypeHint(m.ParsingStrategies(**st)).from_yaml_file(loader, make(path), class_name="X", **k).to_string()

        def others():
            """Files that appeared beside the one read."""
            if sym:
                return [k for k in fs.files if k != path and not k.startswith("/tmp/")]
            w = os.path.dirname(path)
            return [os.path.join("/w", f) for f in sorted(os.listdir(w)) if f != name]

        return [guarded(hints, where), guarded(hints, None), read(path), others()]

    def same(self, a, b):
        if type(a) is list and type(b) is list:  # the two loaders have exceptions of their own
            return all(x == y or type(x) is type(y) is Exc for x, y in zip(a, b))
        return a == b

    def settle(self, inp, out, p):
        force([inp["where"], inp.get("name"), inp.get("kind")])
        t = inp["text"]
        if type(t) is SymStr:
            for ln in t.split("\n"):
                ln.split()
        for x in texts_in(out[:2]):
            uniform_source(x)
