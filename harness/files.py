"""`Tree.to_file` over an in-memory (symbolic) or scratch (real) directory tree."""
from __future__ import annotations

import locale
import os

from symx import core, vfs
from symx.data import Lazy, force, sym_bool
from symx.runner import Exc, Harness, guarded
from symx.uniform import uniform_source

from . import contain, specs
from .base import sym_keys, texts_in


def open_(x):
    while isinstance(x, Lazy):
        x = x._resolve()
    return x


class FileHarness(Harness):
    """params: data, st, at: pieces of the path below the root or the working directory, rel: [bool...], dirs: how many
    leading directories exist, before: what lies at the path, create: [None, bool...], kind: [str, Path], pre: calls made before."""

    def build(self, p):
        inp = {"data": specs.node("d", p["data"])}
        for k, v in specs.strat(p.get("st", {})).items():
            inp["st_" + k] = v
        inp["at"] = [specs.node(f"at{i}", x) for i, x in enumerate(p["at"])]
        for k in ("rel", "dirs", "before", "create", "kind", "pre", "locale"):
            inp[k] = Lazy(k, list(p[k])) if isinstance(p.get(k), list) else p.get(k)
        for x in inp["at"]:
            x = open_(x)
            if not isinstance(x, str):
                continue
            for bad in (".", ".."):
                ne = x != bad
                core.eng().assume(ne if type(ne) is bool else ne.e)
        return inp

    def scratch(self):
        return f"/tmp/symx-file-{os.getpid()}"

    def enter(self, symbolic):
        if symbolic:
            fs = core.eng().extra["fs"] = vfs.FS()
            for d in ("/tmp", "/w", "."):
                fs.add_dir(d)
            fs.home = "/w"
            return None
        c = contain.Contained(self.scratch())
        os.makedirs(os.path.join(c.dir, "w"))
        self.home = os.environ.get("HOME")
        os.environ["HOME"] = os.path.join(c.dir, "w")
        return c.on()

    def leave(self, symbolic, ctx):
        if not symbolic:
            ctx.off()
            if self.home is None:
                del os.environ["HOME"]
            else:
                os.environ["HOME"] = self.home

    def run(self, L, inp, p):
        sym = L.realm.symbolic
        m = L[""]
        st = {k[3:]: v for k, v in inp.items() if k.startswith("st_")}
        at = [open_(x) for x in inp["at"]]
        rel, ndirs, before, create, kind, pre, loc = (open_(inp[k]) for k in ("rel", "dirs", "before", "create", "kind", "pre", "locale"))
        fs = core.eng().extra["fs"] if sym else None
        base = "" if rel else ("/w" if sym else os.path.join(self.scratch(), "w"))
        join = (lambda *a: vfs.VPath(*a)._s) if sym else (lambda *a: os.path.join(*[x for x in a if x]))
        path = join(base, *at)

        def put(q, text):
            if sym:
                fs.files[q] = text
            else:
                with open(q, "w", encoding="utf-8", newline="") as f:
                    f.write(text)

        def mkdir(q):
            if sym:
                fs.dirs[q] = True
            else:
                os.mkdir(q)

        def exists(q):
            return fs.exists(q) if sym else os.path.lexists(q)

        for i in range(min(ndirs or 0, len(at) - 1)):
            q = join(base, *at[: i + 1])
            if not exists(q):
                mkdir(q)
        if before == "blocked" and len(at) > 1 and ndirs < len(at) - 1:
            put(join(base, *at[: ndirs + 1]), "no directory")
        elif before == "dir" and ndirs >= len(at) - 1:
            mkdir(path)
        elif before == "same" and ndirs >= len(at) - 1:  # of the same length
            put(path, m.LazyTypeHint(m.ParsingStrategies(**st)).from_data(inp["data"], class_name="X").to_string()[:-1] + "#")
        elif before in ("short", "long") and ndirs >= len(at) - 1:
            put(path, "x" if before == "short" else "# old\n" * 200)
        if ndirs >= len(at) - 1 and p.get("sibling"):
            q = join(base, *at[:-1], p["sibling"])
            if not exists(q):
                put(q, "é sibling")

        def listing():
            if sym:
                return [[[k, v] for k, v in fs.files.items()], [k for k in fs.dirs.keys() if k not in ("/", "/tmp", "/w", ".")]]
            files, dirs = [], []
            for top, name in ((os.path.join(self.scratch(), "cwd"), ""), (os.path.join(self.scratch(), "w"), "/w")):
                for d, ds, fns in os.walk(top):
                    here = name + d[len(top):] if name else d[len(top) + 1 :]
                    dirs += [(here + "/" if here else "") + x for x in ds]
                    for fn in fns:
                        with open(os.path.join(d, fn), encoding="utf-8", errors="surrogateescape", newline="") as f:
                            files.append([(here + "/" if here else "") + fn, f.read()])
            return [files, dirs]

        def call(f, *a, **k):
            if loc == "ascii":
                if sym:
                    fs.locale = "ascii"
                else:
                    locale.setlocale(locale.LC_CTYPE, "C")
            try:
                return guarded(f, *a, **k)
            finally:
                if sym:
                    fs.locale = "utf-8"
                else:
                    locale.setlocale(locale.LC_CTYPE, "C.UTF-8")

        tree = m.LazyTypeHint(m.ParsingStrategies(**st)).from_data(inp["data"], class_name="X")
        given = path if kind == "str" else vfs.VPath(path) if sym else __import__("pathlib").Path(path)
        k = {} if create is None else {"create_non_existing_dir": create}
        if pre == "bare":
            tree.to_string(include_imports=False)
        elif pre == "text":
            tree.to_string()
        elif pre == "file":
            call(tree.to_file, join("" if rel else base, "first.py"))
        old = listing()
        r = call(tree.to_file, given, **k)
        new = listing()
        want = m.LazyTypeHint(m.ParsingStrategies(**st)).from_data(inp["data"], class_name="X").to_string()
        names = [at[0] if rel else join("/w", at[0])]
        for x in at[1:]:
            names.append(join(names[-1], x))
        return [r, names, old, new, want]

    def settle(self, inp, out, p):
        force([inp[k] for k in ("data", "rel", "dirs", "before", "create", "kind", "pre", "locale")])
        if isinstance(out, Exc):
            return
        keys = sym_keys(inp["data"])
        uniform = texts_in([out[4]])
        for t in uniform:
            uniform_source(t, keys)

    def same(self, a, b):
        if type(a) is type(b) is list and len(a) == len(b) == 5:
            return (a[0] == b[0] and a[1] == b[1] and a[4] == b[4]
                    and all(sorted(x[0]) == sorted(y[0]) and sorted(x[1]) == sorted(y[1]) for x, y in ((a[2], b[2]), (a[3], b[3]))))
        return a == b
