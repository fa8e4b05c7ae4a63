"""Histories of `LazyTypeHintLive` calls over an in-memory (symbolic) or scratch (real) copy of the package's directory."""
from __future__ import annotations

import locale
import os
import shutil

from symx import core, instrument, vfs
from symx.data import Lazy, concrete, force
from symx.runner import Exc, Harness, guarded
from symx.symstr import SymStr
from symx.uniform import uniform_source

from . import contain, miniyaml, specs
from .base import texts_in
from .yamls import text_of, ways

_REALM = {}


def _scratch():
    return f"/tmp/symx-live-{os.getpid()}"


def pkg_root():
    return os.path.join(_scratch(), "d1", "d2", "site")


def where_of(s):
    w = s.get("w", "default")
    return w if isinstance(w, str) else tuple(w)


class LiveHarness(Harness):
    """params: inst: [{"m": mode, strategies...}], steps: [step, ...]

    step: {"do": "data", "n": name spec, "v": data spec, "i": instance} | {"do": "yaml", "n":, "t": lines, "w": where, "i":}
        | {"do": "reset"} | {"do": "new", "i": instance}
        | {"do": "mode", "i": instance, "m": mode}
        | ["any", step, ...]
    """

    def realm(self, symbolic):
        key = (symbolic, os.getpid())
        if key not in _REALM:
            _REALM[key] = instrument.Realm(symbolic, None, file_root=None if symbolic else pkg_root())
        return _REALM[key]

    # -- inputs
    def build(self, p):
        inp = {"steps": [self.step(f"s{i}", s) for i, s in enumerate(p["steps"])]}
        inp["inst"] = [self.instance(f"i{i}", x) for i, x in enumerate(p["inst"])]
        if "locale" in p:
            inp["locale"] = Lazy("locale", list(p["locale"]))
        return inp

    def instance(self, name, x):
        x = dict(x)
        m = x.pop("m", "overwrite")
        if m == "*":
            m = Lazy(name + ".mode", ["overwrite", "validate", "default"])
        return [m, specs.strat(x)]

    def step(self, name, s):
        if isinstance(s, list):
            return Lazy(name, [(lambda x=x, i=i: self.step(f"{name}|{i}", x)) for i, x in enumerate(s[1:])])
        s = dict(s)
        out = [s["do"]]
        if s["do"] in ("data", "yaml"):
            out.append(specs.node(name + ".n", s["n"]))
            out.append(s.get("i", 0))
            if s["do"] == "data":
                out.append(specs.node(name + ".v", s["v"]))
            else:
                out += [text_of([self.tag(name, x) for x in s["t"]]), where_of(s)]
        elif s["do"] == "new":
            out.append(s.get("i", 0))
        elif s["do"] == "mode":
            out += [s.get("i", 0), s["m"]]
        return out

    def tag(self, name, ln):
        return ln

    # -- surroundings
    def enter(self, symbolic):
        if symbolic:
            R = self.realm(True)
            files = tuple(str(q) for q, _ in R.paths.values())
            fs = vfs.FS(readonly_real=files)
            for d in ("/tmp", "/w"):
                fs.add_dir(d)
            for q in files:
                fs.add_dir(os.path.dirname(q))
            core.eng().extra["fs"] = fs
            return None
        c = contain.Contained(_scratch())
        R = self.realm(False)
        for q, _ in R.paths.values():
            t = os.path.join(pkg_root(), os.path.relpath(q, R.root.parent))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(q, t)
        return c.on()

    def leave(self, symbolic, ctx):
        if not symbolic:
            ctx.off()

    # -- the run
    def run(self, L, inp, p):
        m = L[""]
        Live = m.LazyTypeHintLive
        live = L.find("LazyTypeHintLive")
        mod = L.mods[live.__module__]
        base = os.path.dirname(mod.__file__)
        stem = os.path.basename(mod.__file__)[:-3]
        sym = L.realm.symbolic
        fs = core.eng().extra["fs"] if sym else None

        def snapshot():
            pyi = os.path.join(base, stem + ".pyi")
            bd = os.path.join(base, "build")
            if sym:
                root = str(L.realm.root.parent) + "/"
                files = [[k[len(bd) + 1 :], v] for k, v in fs.files.items() if k.startswith(bd + "/")]
                others = [k for k in fs.files if not k.startswith(bd + "/") and (k.startswith(root) or not k.startswith("/tmp/") and not k.startswith("/w/"))]
                return [fs.files[pyi] if pyi in fs.files else None, files, len(others) - (pyi in fs.files)]
            known = {os.path.join(pkg_root(), os.path.relpath(q, L.realm.root.parent)) for q, _ in L.realm.paths.values()}
            files, others = [], 0
            for d, _, fns in os.walk(os.path.dirname(os.path.dirname(os.path.dirname(pkg_root())))):
                for fn in sorted(fns):
                    full = os.path.join(d, fn)
                    if d == bd:
                        with open(full, encoding="utf-8") as f:
                            files.append([fn, f.read()])
                    elif full != pyi and full not in known and not full.startswith(os.path.join(_scratch(), "tmp")) and os.path.dirname(full) != os.path.join(_scratch(), "w"):
                        others += 1
            try:
                with open(pyi, encoding="utf-8") as f:
                    text = f.read()
            except FileNotFoundError:
                text = None
            return [text, files, others]

        if sym:
            def loader(q):
                return miniyaml.load(fs.read(q))
        else:
            import yaml

            def loader(q):
                with open(q, encoding="utf-8") as f:
                    return yaml.safe_load(f)

        inst = {}

        def make(i):
            mode, st = inp["inst"][i]
            mode = mode._resolve() if isinstance(mode, Lazy) else mode
            inst[i] = Live(m.ParsingStrategies(**st), **({} if mode == "default" else {"if_type_hint_exists": mode}))
            return inst[i]

        def get(i):
            return inst[i] if i in inst else make(i)

        def plain_hints(i):
            return m.LazyTypeHint(m.ParsingStrategies(**inp["inst"][i][1]))

        loc = inp.get("locale")
        loc = loc._resolve() if isinstance(loc, Lazy) else loc

        def guarded_(f, *a, **k):
            if loc != "ascii":
                return guarded(f, *a, **k)
            if sym:
                fs.locale = "ascii"
            else:
                locale.setlocale(locale.LC_CTYPE, "C")
            try:
                return guarded(f, *a, **k)
            finally:
                if sym:
                    fs.locale = "utf-8"
                else:
                    locale.setlocale(locale.LC_CTYPE, "C.UTF-8")

        out = []
        for i in p.get("create", []):
            make(i)
        for s in inp["steps"]:
            s = s._resolve() if isinstance(s, Lazy) else s
            s = [x._resolve() if isinstance(x, Lazy) else x for x in s]
            do = s[0]
            if do == "reset":
                r = guarded_(Live.reset)
                out.append([r if isinstance(r, Exc) else "done", None, snapshot()])
            elif do == "mode":
                get(s[1]).if_type_hint_exists = s[2]
                out.append(["done", None, snapshot()])
            elif do == "new":
                r = guarded_(make, s[1])
                out.append([r if isinstance(r, Exc) else "done", None, snapshot()])
            elif do == "data":
                _, name, i, v = s
                exp = guarded(lambda: plain_hints(i).from_data(v, class_name=name).to_string())
                r = guarded_(lambda: get(i).from_data(v, class_name=name))
                out.append([r if isinstance(r, Exc) else ["returns", r is v, r], exp, snapshot()])
            else:
                _, name, i, text, where = s
                path = "/w/f.yaml" if sym else os.path.join(_scratch(), "w", "f.yaml")
                if sym:
                    fs.files[path] = text
                else:
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, "w", encoding="utf-8", newline="") as f:
                        f.write(text)
                exp = guarded(lambda: plain_hints(i).from_yaml_file(loader, path, class_name=name, comments_are=ways(where)).to_string())
                data = guarded(loader, path)
                k = {} if where == "default" else {"comments_are": where}
                r = guarded_(lambda: get(i).from_yaml_file(loader, path, class_name=name, **k))
                out.append([r if isinstance(r, Exc) else ["returns", r == data, r], exp, snapshot()])
        return out

    def settle(self, inp, out, p):
        force([inp["steps"], inp["inst"], inp.get("locale")])
        if isinstance(out, Exc):
            return
        for r, exp, (pyi, files, _) in out:
            for t in texts_in([exp, pyi, files]):
                uniform_source(t)

    def same(self, a, b):
        if type(a) is type(b) is list and len(a) == len(b):
            for (r, e, s), (r2, e2, s2) in zip(a, b):
                if type(r) is not type(r2) or (type(r) is list and r[:2] != r2[:2]) or e != e2 or s[0] != s2[0] or sorted(s[1]) != sorted(s2[1]) or s[2] != s2[2]:
                    return False
            return True
        return a == b
