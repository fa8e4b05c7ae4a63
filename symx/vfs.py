"""In-memory file system for code under test: paths may be symbolic, nothing real is touched."""
from __future__ import annotations

import codecs
import os
import pathlib

from .core import Proxy, eng
from .containers import SDict
from .symstr import SymStr, cat, char_eq, disj, mk, to_str


def _fs():
    g = eng()
    fs = g.extra.get("fs")
    if fs is None:
        fs = g.extra["fs"] = FS()
    return fs


class SBytes(Proxy):
    """A symbolic text encoded as UTF-8; only files can take it."""

    def __init__(self, text):
        self._t = text

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        return _load(self._t, encoding, errors, "")

    def __len__(self):
        return utf8_len(self._t)


def utf8_len(text):
    if type(text) is not SymStr:
        return len(text.encode("utf-8", "surrogatepass"))
    n = 0
    for i, c in enumerate(text._c):
        n += len(c.encode("utf-8", "surrogatepass")) if type(c) is str else 1 if text[i].isascii() else 2
    return n


class SStat(Proxy):
    """What is known of a file: no times, no owner."""

    def __init__(self, size, mode):
        self.st_size, self.st_mode = size, mode


def home(s):
    """`os.path.expanduser`; other users have no home."""
    if not s.startswith("~"):
        return s
    i = s.find("/")
    if i < 0:
        i = len(s)
    return cat(_fs().home, s[i:]) if i == 1 else s


def _enc(e):
    """Canonical name of an encoding, None being the locale's."""
    e = to_str(e) if e is not None else _fs().locale
    e = e.pinned() if type(e) is SymStr else e
    if e == "locale":
        e = _fs().locale
    return codecs.lookup(e).name


def _store(text, encoding, errors, newline):
    """(what the bytes of a text read as in UTF-8, the error raised halfway or None)"""
    if newline not in (None, "", "\n"):
        text = text.replace("\n", newline)
    e = _enc(encoding)
    if e == "utf-8" or (text.isascii() and e in ("ascii", "iso8859-1", "cp1252")):
        return text, None
    text = text.pinned() if type(text) is SymStr else text
    try:
        return text.encode(e, errors or "strict").decode("utf-8", "surrogateescape"), None
    except UnicodeError as x:
        return "", x


def _load(text, encoding, errors, newline):
    e = _enc(encoding)
    if not (e == "utf-8" and not _surrogates(text) or (text.isascii() and e in ("ascii", "iso8859-1", "cp1252", "utf-8-sig"))):
        text = text.pinned() if type(text) is SymStr else text
        text = text.encode("utf-8", "surrogateescape").decode(e, errors or "strict")
    if newline is None and text.find("\r") >= 0:
        text = text.replace("\r\n", "\n").replace("\r", "\n")
    return text


def _surrogates(text):
    return any(type(c) is str and "\udc80" <= c <= "\udcff" for c in (text._c if type(text) is SymStr else text))


class FS:
    """locale: encoding of text files whose encoding is not given.
    files: path string -> text; dirs: set of path strings; ops: log of effects."""

    def __init__(self, files=(), dirs=("/",), readonly_real=(), locale="utf-8"):
        self.locale = locale
        self.home = "/root"
        self.files = SDict(files)
        self.dirs = SDict([(d, True) for d in dirs])
        self.readonly_real = tuple(readonly_real)
        self.ops = []

    def add_dir(self, d):
        while True:
            self.dirs[d] = True
            if d in ("/", "", "."):
                return
            d = parent_of(d)

    def exists(self, p):
        return p in self.files or p in self.dirs or self._real(p) is not None

    def isdir(self, p):
        return p in self.dirs

    def _real(self, p):
        if type(p) is not str:
            return None
        for r in self.readonly_real:
            if p == r or p.startswith(r.rstrip("/") + "/"):
                return p if os.path.isfile(p) else None
        return None

    def read(self, p):
        if p in self.files:
            return self.files[p]
        r = self._real(p)
        if r is not None:
            with open(r, encoding="utf-8") as f:
                return f.read()
        raise FileNotFoundError(2, "No such file or directory", to_str(p))

    def write(self, p, text):
        self.ops.append(("write", p))
        self._above(p)
        if p in self.dirs:
            raise IsADirectoryError(21, "Is a directory", to_str(p))
        if parent_of(p) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", to_str(p))
        self.files[p] = text

    def _above(self, p):
        d = parent_of(p)
        while d not in ("/", "."):
            if d in self.files:
                raise NotADirectoryError(20, "Not a directory", to_str(p))
            d = parent_of(d)

    def stat(self, p):
        if p in self.dirs:
            return SStat(4096, 0o40755)
        return SStat(utf8_len(self.read(p)), 0o100644)

    def mkdir(self, p, parents=False, exist_ok=False):
        self.ops.append(("mkdir", p))
        if p in self.dirs:
            if exist_ok:
                return
            raise FileExistsError(17, "File exists", to_str(p))
        if p in self.files:
            raise FileExistsError(17, "File exists", to_str(p))
        self._above(p)
        if parent_of(p) not in self.dirs:
            if not parents:
                raise FileNotFoundError(2, "No such file or directory", to_str(p))
            self.mkdir(parent_of(p), True, True)
        self.dirs[p] = True

    def unlink(self, p):
        self.ops.append(("unlink", p))
        if p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", to_str(p))
        del self.files[p]

    def rmtree(self, p):
        self.ops.append(("rmtree", p))
        if p not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", to_str(p))
        pre = p + "/"
        for k in list(self.files):
            if k.startswith(pre):
                del self.files[k]
        for k in list(self.dirs):
            if k == p or k.startswith(pre):
                del self.dirs[k]

    def listdir(self, p):
        pre = p + "/"
        out = []
        for k in [*self.files, *self.dirs]:
            if len(k) > len(pre) and k.startswith(pre):
                rest = k[len(pre) :]
                if "/" not in rest:
                    out.append(rest)
        return out


def parent_of(p):
    i = p.rfind("/")
    if i < 0:
        return "."
    return p[:i] if i else "/"


class VPath(Proxy):
    """pathlib.Path over a (possibly symbolic) path string."""

    def __init__(self, *parts):
        s = None
        for p in parts:
            t = p._s if type(p) is VPath else (p if type(p) in (str, SymStr) else os.fspath(p))
            if s is None:
                s = t if len(t) else "."
            elif len(t) == 0:
                continue
            elif t.startswith("/"):
                s = t
            else:
                s = cat(s, "/" if not _ends_slash(s) else "", t) if s != "." else t
        self._s = s if s is not None else "."

    @property
    def __class__(self):
        return pathlib.PosixPath

    def __truediv__(self, o):
        return VPath(self, o)

    def __rtruediv__(self, o):
        return VPath(o, self)

    def __str__(self):
        return str(self._s) if type(self._s) is str else self._s.pinned()

    def _symstr(self):
        return self._s

    def __fspath__(self):
        return str(self)

    def __repr__(self):
        return f"VPath({self._s!r})"

    def __eq__(self, o):
        if isinstance(o, pathlib.PurePath):
            return self._s == (o._s if type(o) is VPath else str(o))
        return NotImplemented

    def __hash__(self):
        return hash(str(self))

    @property
    def parent(self):
        return VPath(parent_of(self._s))

    @property
    def parents(self):
        out, p = [], self
        while p._s not in ("/", "."):
            p = p.parent
            out.append(p)
        return tuple(out)

    @property
    def name(self):
        return self._s[self._s.rfind("/") + 1 :]

    @property
    def suffix(self):
        n = self.name
        i = n.rfind(".")
        return n[i:] if 0 < i < len(n) - 1 else ""

    @property
    def stem(self):
        n = self.name
        i = n.rfind(".")
        return n[:i] if 0 < i < len(n) - 1 else n

    @property
    def parts(self):
        return tuple(self._s.split("/"))

    def with_suffix(self, suf):
        return VPath(cat(self._s[: len(self._s) - len(self.suffix)], suf))

    def with_name(self, n):
        return VPath(self.parent, n)

    def with_stem(self, s):
        return self.with_name(cat(s, self.suffix))

    def as_posix(self):
        return self._s

    def joinpath(self, *others):
        return VPath(self, *others)

    @property
    def suffixes(self):
        return ["." + x for x in self.name.lstrip(".").split(".")[1:]]

    def relative_to(self, other):
        o = v(other)._s
        pre = o if o.endswith("/") else cat(o, "/")
        if self._s == o:
            return VPath(".")
        if not self._s.startswith(pre):
            raise ValueError(f"{self} is not in the subpath of {other}")
        return VPath(self._s[len(pre) :])

    def is_relative_to(self, other):
        o = v(other)._s
        return bool(self._s == o) or bool(self._s.startswith(cat(o, "/")))

    def samefile(self, other):
        return bool(self._s == v(other)._s)

    def is_absolute(self):
        return bool(self._s.startswith("/"))

    def resolve(self, strict=False):
        return self

    absolute = resolve

    def expanduser(self):
        if not self._s.startswith("~"):
            return self
        t = home(self._s)
        if t.startswith("~"):
            raise RuntimeError("Could not determine home directory.")
        return VPath(t)

    def stat(self, *, follow_symlinks=True):
        return _fs().stat(self._s)

    lstat = stat

    def exists(self):
        return _fs().exists(self._s)

    def is_file(self):
        return self._s in _fs().files or _fs()._real(self._s) is not None

    def is_dir(self):
        return _fs().isdir(self._s)

    def read_text(self, encoding=None, errors=None):
        return _load(_fs().read(self._s), encoding, errors, None)

    def read_bytes(self):
        return SBytes(_fs().read(self._s))

    def write_text(self, data, encoding=None, errors=None, newline=None):
        if not isinstance(data, str):
            raise TypeError(f"data must be str, not {type(data).__name__}")
        f = VFile(self._s, "w", encoding, errors, newline)
        try:
            f.write(data)
        finally:
            f.close()
        return len(data)

    def write_bytes(self, data):
        f = VFile(self._s, "wb")
        f.write(data)
        f.close()
        return 0

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        _fs().mkdir(self._s, parents, exist_ok)

    def unlink(self, missing_ok=False):
        if missing_ok and self._s not in _fs().files:
            return
        _fs().unlink(self._s)

    def touch(self, mode=0o666, exist_ok=True):
        if self._s not in _fs().files:
            _fs().write(self._s, "")
        elif not exist_ok:
            raise FileExistsError(17, "File exists", to_str(self._s))

    def rename(self, target):
        return self.replace(target)

    def replace(self, target):
        fs, t = _fs(), v(target)
        text = fs.read(self._s)
        fs.write(t._s, text)
        fs.unlink(self._s)
        return t

    def rmdir(self):
        _fs().rmtree(self._s)

    def iterdir(self):
        return iter([VPath(self, n) for n in _fs().listdir(self._s)])

    def glob(self, pat):
        import fnmatch

        return iter([VPath(self, n) for n in _fs().listdir(self._s) if fnmatch.fnmatch(str(VPath(n)), pat)])

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return VFile(self._s, mode, encoding, errors, newline)


def _ends_slash(s):
    return bool(s.endswith("/"))


class VFile:
    """An open file: its whole (decoded) content and a position; text the file already held stays as it was stored."""

    def __init__(self, path, mode="r", encoding=None, errors=None, newline=None):
        self.path = self.name = path
        self.mode, self.how = mode, (encoding, errors, newline)
        self.encoding, self.errors, self.newline = encoding, errors, newline
        self.closed = self.dirty = False
        self.kept, self.text, self.pos = "", "", 0
        fs = _fs()
        if "w" in mode:
            fs.write(path, "")
        elif "a" in mode:
            if path in fs.files:
                self.kept = fs.read(path)
            else:
                fs.write(path, "")
        elif "x" in mode:
            if fs.exists(path):
                raise FileExistsError(17, "File exists", to_str(path))
            fs.write(path, "")
        else:
            t = fs.read(path)
            self.text = t if "b" in mode else _load(t, *self.how)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return "r" not in self.mode or "+" in self.mode

    def seekable(self):
        return True

    def _use(self, reading):
        import io

        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if reading and not self.readable():
            raise io.UnsupportedOperation("not readable")
        if not reading and not self.writable():
            raise io.UnsupportedOperation("not writable")

    def _give(self, t):
        self.pos += len(t)
        return SBytes(t) if "b" in self.mode else t

    def read(self, n=-1):
        self._use(True)
        return self._give(self.text[self.pos :] if n is None or n < 0 else self.text[self.pos : self.pos + n])

    def readline(self, n=-1):
        self._use(True)
        return self._give(self._line(self.text[self.pos :]))

    def _line(self, rest):
        ends = ["\n"] if self.how[2] in (None, "\n") or "b" in self.mode else ["\n", "\r"] if self.how[2] == "" else [self.how[2]]
        cut = len(rest)
        for e in ends:
            i = rest.find(e)
            if i >= 0:
                j = i + len(e)
                if e == "\r" and rest[j : j + 1] == "\n":
                    j += 1
                cut = min(cut, j)
        return rest[:cut]

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if not len(line):
                return
            yield line

    def __next__(self):
        line = self.readline()
        if not len(line):
            raise StopIteration
        return line

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else len(self.text) + pos if whence == 2 else self.pos + pos
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self._use(False)
        self.dirty = True
        self.text = self.text[: self.pos if size is None else size]
        return len(self.text)

    def write(self, s):
        self._use(False)
        if "b" in self.mode:
            t = s._t if type(s) is SBytes else s.decode("utf-8", "surrogateescape")
        else:
            if not isinstance(s, str):
                raise TypeError(f"write() argument must be str, not {type(s).__name__}")
            t, x = _store(s, *self.how)
            if x is not None:
                raise x
        self.dirty = True
        if "a" in self.mode:
            self.pos = len(self.text)
        self.text = cat(self.text[: self.pos], t, self.text[self.pos + len(t) :])
        self.pos += len(t)
        return len(s) if "b" not in self.mode else 0

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def flush(self):
        if self.writable() and (self.dirty or "r" not in self.mode):
            _fs().files[self.path] = cat(self.kept, self.text)

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True


def v(p):
    return p if type(p) is VPath else VPath(p)
