"""Symbolic strings: concrete length, each character a concrete character or an 8-bit (Latin-1) z3 term."""
from __future__ import annotations

import string as _string
import sys

from .core import Abort, PathCut, Proxy, SymBool, SymInt, eng, mkbool, z3

LATIN = [chr(i) for i in range(256)]


def _ranges(pred):
    out, start = [], None
    for i in range(257):
        ok = i < 256 and pred(chr(i))
        if ok and start is None:
            start = i
        elif not ok and start is not None:
            out.append((start, i - 1))
            start = None
    return out


_PRED = {}
_CONSTS = [None] * 256


def bv(i):
    c = _CONSTS[i]
    if c is None:
        c = _CONSTS[i] = z3.BitVecVal(i, 8)
    return c


def in_ranges(c, ranges):
    terms = []
    for a, b in ranges:
        if a == b:
            terms.append(c == bv(a))
        elif a == 0 and b == 255:
            return True
        elif a == 0:
            terms.append(z3.ULE(c, bv(b)))
        elif b == 255:
            terms.append(z3.UGE(c, bv(a)))
        else:
            terms.append(z3.And(z3.UGE(c, bv(a)), z3.ULE(c, bv(b))))
    if not terms:
        return False
    return terms[0] if len(terms) == 1 else z3.Or(*terms)


_PCACHE = {}


def char_pred(c, name, pred):
    """z3 term (or bool) for a per-character predicate."""
    if type(c) is str:
        return bool(pred(c))
    r = _PRED.get(name)
    if r is None:
        r = _PRED[name] = _ranges(pred)
    key = (c.get_id(), name)
    t = _PCACHE.get(key)
    if t is None:
        t = _PCACHE[key] = (in_ranges(c, r), c)  # keeps c alive, so the id stays its own
    return t[0]


def char_in(c, chars):
    """Is the character one of a concrete collection of characters?"""
    if type(c) is str:
        return c in chars
    return char_pred(c, ("in", frozenset(chars)), lambda ch: ch in chars)


def char_eq(a, b):
    ta, tb = type(a) is str, type(b) is str
    if ta and tb:
        return a == b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        o = ord(b)
        if o > 255:
            return False
        return a == bv(o)
    if a.eq(b):
        return True
    return a == b


def conj(terms):
    out = []
    for t in terms:
        if t is False:
            return False
        if t is True:
            continue
        out.append(t)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def disj(terms):
    out = []
    for t in terms:
        if t is True:
            return True
        if t is False:
            continue
        out.append(t)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def chars_of(s):
    if type(s) is SymStr:
        return s._c
    if isinstance(s, str):
        return tuple(str(s) if type(s) is not str else s)
    raise TypeError(f"expected str, got {type(s).__name__}")


def mk(chars):
    """Build a SymStr, or a plain str when every character is concrete."""
    chars = tuple(chars)
    for c in chars:
        if type(c) is not str:
            return SymStr(chars)
    return "".join(chars)


def str_eq(a, b):
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    return conj([char_eq(x, y) for x, y in zip(ca, cb)])


_UP_IRREG = [c for c in LATIN if len(c.upper()) != 1 or ord(c.upper()) > 255]
_LO_IRREG = [c for c in LATIN if len(c.lower()) != 1 or ord(c.lower()) > 255]
_CF_IRREG = [c for c in LATIN if len(c.casefold()) != 1 or ord(c.casefold()) > 255]
_TI_IRREG = [c for c in LATIN if c.title() != c.upper()]


def _pin(c):
    """Fork on the value of a symbolic character until it is concrete."""
    return chr(eng().pin(c, lambda v: c == bv(v)))


def _case(c, fn, irregular, name):
    if type(c) is str:
        return tuple(fn(c))
    g = eng()
    if irregular:
        t = char_in(c, irregular)
        if t is not False and g.branch(t):
            return tuple(fn(_pin(c)))
    # regular Latin-1 mappings are a constant offset over ranges
    offs = {}
    for ch in LATIN:
        if ch in irregular:
            continue
        d = ord(fn(ch)) - ord(ch)
        if d:
            offs.setdefault(d, []).append(ch)
    e = c
    for d, chs in offs.items():
        cond = char_pred(c, ("case", name, d), lambda ch, chs=frozenset(chs): ch in chs)
        e = z3.If(cond, c + bv(d % 256), e)
    return (e,)


WS = [c for c in LATIN if c.isspace()]
LINEBREAKS = [c for c in LATIN if len(("a" + c + "b").splitlines()) == 2]


class SymStr(Proxy):
    __slots__ = ("_c", "_h", "__weakref__")

    def __init__(self, chars):
        self._c = tuple(chars)

    @property
    def __class__(self):
        return str

    # ---------------------------------------------------------------- basics
    def __len__(self):
        return len(self._c)

    def __bool__(self):
        return bool(self._c)

    def __iter__(self):
        for c in self._c:
            yield mk((c,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            def ix(x):
                return x.__index__() if x is not None else None
            return mk(self._c[slice(ix(k.start), ix(k.stop), ix(k.step))])
        return mk((self._c[k.__index__()],))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(self._c + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(chars_of(o) + self._c)

    def __mul__(self, n):
        return mk(self._c * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        return self.pinned() % args

    def __rtruediv__(self, o):
        from .vfs import VPath

        return VPath(o) / self

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, str):
            return NotImplemented
        return mkbool(str_eq(self, o))

    def __ne__(self, o):
        if o is self:
            return False
        if not isinstance(o, str):
            return NotImplemented
        t = str_eq(self, o)
        return (not t) if isinstance(t, bool) else SymBool(z3.Not(t))

    def _lt(self, o, strict):
        a, b = self._c, chars_of(o)
        g = eng()
        for x, y in zip(a, b):
            if g.branch(char_eq(x, y)):
                continue
            if type(x) is str and type(y) is str:
                return x < y
            if type(y) is str and ord(y) > 255:
                return True
            if type(x) is str and ord(x) > 255:
                return False
            zx = bv(ord(x)) if type(x) is str else x
            zy = bv(ord(y)) if type(y) is str else y
            return g.branch(z3.ULT(zx, zy))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return not self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return not self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __hash__(self):
        # Only native containers get here: make the value concrete (one fork per value).
        return hash(self.pinned())

    def pinned(self):
        """Concrete value, enumerated by forking (sound: the other values stay queued)."""
        return "".join(c if type(c) is str else _pin(c) for c in self._c)

    def __str__(self):
        return self.pinned()

    def __repr__(self):
        return "SymStr(" + "".join(c if type(c) is str else "?" for c in self._c) + ")"

    def __format__(self, spec):
        return format(self.pinned(), spec)

    def __fspath__(self):
        return self.pinned()

    def __contains__(self, sub):
        return self.find(sub) >= 0

    # ---------------------------------------------------------------- search
    def _span(self, start, end):
        n = len(self._c)
        s, e, _ = slice(
            None if start is None else start.__index__(), None if end is None else end.__index__()
        ).indices(n)
        return s, e

    def _at(self, sub, i):
        if i < 0 or i + len(sub) > len(self._c):
            return False
        return conj([char_eq(x, y) for x, y in zip(self._c[i : i + len(sub)], sub)])

    def find(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._span(start, end)
        if start is not None and start.__index__() > len(self._c):
            return -1
        g = eng()
        for i in range(s, e - len(sub) + 1):
            if g.branch(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._span(start, end)
        g = eng()
        for i in range(e - len(sub), s - 1, -1):
            if g.branch(self._at(sub, i)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._span(start, end)
        if not sub:
            return e - s + 1
        g, n, i = eng(), 0, s
        while i + len(sub) <= e:
            if g.branch(self._at(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(bool(self.startswith(x, start, end)) for x in p)
        p = chars_of(p)
        s, e = self._span(start, end)
        if s + len(p) > e:
            return False
        return mkbool(self._at(p, s))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(bool(self.endswith(x, start, end)) for x in p)
        p = chars_of(p)
        s, e = self._span(start, end)
        if e - len(p) < s:
            return False
        return mkbool(self._at(p, e - len(p)))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) and len(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    # ---------------------------------------------------------------- classes
    def _all(self, name, pred):
        if not self._c:
            return False
        return mkbool(conj([char_pred(c, name, pred) for c in self._c]))

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isspace(self):
        return self._all("isspace", str.isspace)

    def isascii(self):
        return mkbool(conj([char_pred(c, "isascii", str.isascii) for c in self._c]))

    def isprintable(self):
        return mkbool(conj([char_pred(c, "isprintable", str.isprintable) for c in self._c]))

    def _iscased(self, name, yes, no):
        if not self._c:
            return False
        bad = disj([char_pred(c, ("not", name), no) for c in self._c])
        good = disj([char_pred(c, name, yes) for c in self._c])
        if bad is True or good is False:
            return False
        return mkbool(conj([good, z3.Not(bad) if bad is not False else True]))

    def isupper(self):
        return self._iscased("isupper", str.isupper, str.islower)

    def islower(self):
        return self._iscased("islower", str.islower, str.isupper)

    def isidentifier(self):
        if not self._c:
            return False
        t = [char_pred(self._c[0], "idstart", str.isidentifier)]
        t += [char_pred(c, "idcont", lambda ch: ("a" + ch).isidentifier()) for c in self._c[1:]]
        return mkbool(conj(t))

    # ---------------------------------------------------------------- case
    def upper(self):
        out = []
        for c in self._c:
            out.extend(_case(c, str.upper, _UP_IRREG, "up"))
        return mk(out)

    def lower(self):
        out = []
        for c in self._c:
            out.extend(_case(c, str.lower, _LO_IRREG, "lo"))
        return mk(out)

    def casefold(self):
        out = []
        for c in self._c:
            out.extend(_case(c, str.casefold, _CF_IRREG, "cf"))
        return mk(out)

    def capitalize(self):
        if not self._c:
            return self
        head = self._c[0]
        t = char_in(head, _TI_IRREG) if type(head) is not str else head in _TI_IRREG
        if t is not False and eng().branch(t):
            return mk((_pin(head) if type(head) is not str else head).title()) + mk(self._c[1:]).lower()
        return mk(_case(head, str.upper, _UP_IRREG, "up")) + mk(self._c[1:]).lower()

    def title(self):
        return self.pinned().title()

    def swapcase(self):
        return self.pinned().swapcase()

    # ---------------------------------------------------------------- strip / split / replace
    def _strip_set(self, chars):
        if chars is None:
            return lambda c: char_pred(c, "isspace", str.isspace)
        cs = chars_of(chars)
        return lambda c: disj([char_eq(c, x) for x in cs])

    def lstrip(self, chars=None):
        p, g, i = self._strip_set(chars), eng(), 0
        while i < len(self._c) and g.branch(p(self._c[i])):
            i += 1
        return mk(self._c[i:])

    def rstrip(self, chars=None):
        p, g, i = self._strip_set(chars), eng(), len(self._c)
        while i > 0 and g.branch(p(self._c[i - 1])):
            i -= 1
        return mk(self._c[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if type(r) is SymStr else (r.rstrip(chars) if chars is None or type(chars) is str else SymStr(r).rstrip(chars))

    def split(self, sep=None, maxsplit=-1):
        g = eng()
        maxsplit = maxsplit.__index__()
        out, n = [], len(self._c)
        if sep is None:
            i = 0
            sp = lambda c: g.branch(char_pred(c, "isspace", str.isspace))  # noqa: E731
            while True:
                while i < n and sp(self._c[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(self._c[i:]).rstrip())
                    break
                j = i
                while j < n and not sp(self._c[j]):
                    j += 1
                out.append(mk(self._c[i:j]))
                i = j
            return out
        sep = chars_of(sep)
        if not sep:
            raise ValueError("empty separator")
        i = start = 0
        while i + len(sep) <= n:
            if (maxsplit < 0 or len(out) < maxsplit) and g.branch(self._at(sep, i)):
                out.append(mk(self._c[start:i]))
                i += len(sep)
                start = i
            else:
                i += 1
        out.append(mk(self._c[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self.pinned().rsplit(None, maxsplit)
        sep = chars_of(sep)
        g, out, end, i = eng(), [], len(self._c), len(self._c) - len(sep)
        while i >= 0:
            if len(out) < maxsplit and g.branch(self._at(sep, i)):
                out.append(mk(self._c[i + len(sep) : end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(mk(self._c[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        g, out, i, start, n = eng(), [], 0, 0, len(self._c)
        while i < n:
            c = self._c[i]
            if g.branch(char_in(c, LINEBREAKS)):
                e = i
                i += 1
                if g.branch(char_eq(c, "\r")) and i < n and g.branch(char_eq(self._c[i], "\n")):
                    i += 1
                out.append(mk(self._c[start : (i if keepends else e)]))
                start = i
            else:
                i += 1
        if start < n:
            out.append(mk(self._c[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep) :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep) :])

    def replace(self, old, new, count=-1):
        old_c, new_c = chars_of(old), chars_of(new)
        g, out, i, n, k = eng(), [], 0, len(self._c), 0
        count = count.__index__()
        if not old_c:
            return self.pinned().replace("", SymStr(new_c).pinned(), count)
        while i < n:
            if (count < 0 or k < count) and i + len(old_c) <= n and g.branch(self._at(old_c, i)):
                out.extend(new_c)
                i += len(old_c)
                k += 1
            else:
                out.append(self._c[i])
                i += 1
        return mk(out)

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if not isinstance(it, str):
                raise TypeError(f"sequence item {k}: expected str instance, {type(it).__name__} found")
            if k:
                out.extend(self._c)
            out.extend(chars_of(it))
        return mk(out)

    def ljust(self, w, fill=" "):
        return mk(self._c + chars_of(fill) * max(0, w.__index__() - len(self._c)))

    def rjust(self, w, fill=" "):
        return mk(chars_of(fill) * max(0, w.__index__() - len(self._c)) + self._c)

    def center(self, *a):
        return self.pinned().center(*a)

    def zfill(self, w):
        return self.pinned().zfill(w)

    def expandtabs(self, *a):
        return self.pinned().expandtabs(*a)

    def translate(self, t):
        if not isinstance(t, dict):
            return self.pinned().translate(t)
        g, out = eng(), []
        keys = [k for k in t if type(k) is int and 0 <= k < 256]
        chars = [chr(k) for k in keys]
        for c in self._c:
            if type(c) is not str:
                hit = char_in(c, chars) if chars else False
                if hit is False or not g.branch(hit):
                    out.append(c)
                    continue
                new = None
                for k in keys:
                    if g.branch(char_eq(c, chr(k))):
                        new = t[k]
                        break
            elif ord(c) in t:
                new = t[ord(c)]
            else:
                out.append(c)
                continue
            if new is not None:
                out.extend(chars_of(chr(new) if isinstance(new, int) else new))
        return mk(out)

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding in ("utf-8", "utf8", "UTF-8"):
            from .vfs import SBytes

            return SBytes(self)
        return self.pinned().encode(encoding, errors)

    def format(self, *args, **kwargs):
        if all(type(c) is str for c in self._c):
            return str_format("".join(self._c), args, kwargs)
        # literal text with symbolic characters: braces inside it would be format syntax
        g = eng()
        tmpl, back, nxt = [], {}, 0xE000
        for c in self._c:
            if type(c) is str:
                tmpl.append(c)
            elif g.branch(char_in(c, "{}")):
                tmpl.append(_pin(c))
            else:
                ph = chr(nxt)
                nxt += 1
                back[ph] = c
                tmpl.append(ph)
        # a symbolic character inside a replacement field would name an argument: concretise
        t, depth = "".join(tmpl), 0
        i = 0
        while i < len(t):
            ch = t[i]
            if ch in "{}" and i + 1 < len(t) and t[i + 1] == ch and depth == 0:
                i += 2
                continue
            if ch == "{":
                depth += 1
            elif ch == "}":
                depth = max(0, depth - 1)
            elif depth and ch in back:
                v = _pin(back.pop(ch))
                t = t.replace(ch, v)
            i += 1
        out = str_format(t, args, kwargs)
        return mk([back.get(c, c) if type(c) is str else c for c in chars_of(out)])

    def maketrans(self, *a):
        return str.maketrans(*a)


def lift(s):
    return s if type(s) is SymStr else SymStr(s)


# ------------------------------------------------------------------ str(), repr(), format
def sym_repr(s):
    if type(s) is not SymStr:
        return repr(s)
    g = eng()
    has_sq = g.branch(disj([char_eq(c, "'") for c in s._c]))
    has_dq = has_sq and g.branch(disj([char_eq(c, '"') for c in s._c]))
    q = '"' if has_sq and not has_dq else "'"
    out = [q]
    for c in s._c:
        if type(c) is str:
            r = repr(c + ("'" if q == '"' else '"'))[1:-2] if c not in "'\"" else c
            out.extend("\\'" if (c == "'" and q == "'") else r)
            continue
        plain = char_pred(c, "reprplain", lambda ch: ch.isprintable() and ch not in "\\'\"")
        if g.branch(plain):
            out.append(c)
        else:
            v = _pin(c)
            if v in "'\"":
                out.extend("\\" + v if v == q else v)
            else:
                out.extend(repr(v)[1:-1])
    out.append(q)
    return mk(out)


def to_str(x):
    """str(x), symbolic-aware."""
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t is SymInt:
        return str(x.concretise())
    if t is SymBool:
        return str(bool(x))
    if isinstance(x, Proxy) and hasattr(t, "_resolve"):
        return to_str(x._resolve())
    f = t.__str__
    if f is not object.__str__ and hasattr(f, "__code__"):
        return f(x)
    if f is object.__str__ and hasattr(t.__repr__, "__code__"):
        return t.__repr__(x)
    if isinstance(x, (list, tuple, dict, set, frozenset)):
        return to_repr(x)
    if isinstance(x, BaseException) and any(isinstance(a, Proxy) for a in x.args):
        return to_str(x.args[0]) if len(x.args) == 1 else to_repr(x.args)
    return str(x)


def to_repr(x):
    t = type(x)
    if t is SymStr:
        return sym_repr(x)
    if t is SymInt:
        return repr(x.concretise())
    if t is SymBool:
        return repr(bool(x))
    if isinstance(x, Proxy) and hasattr(t, "_resolve"):
        return to_repr(x._resolve())
    if t is list:
        return cat("[", *_sep([to_repr(e) for e in x]), "]")
    if t is tuple:
        return cat("(", *_sep([to_repr(e) for e in x]), ",)" if len(x) == 1 else ")")
    if isinstance(x, dict) and t.__repr__ in (dict.__repr__,) or getattr(t, "_symx_dict", False):
        parts = [cat(to_repr(k), ": ", to_repr(v)) for k, v in x.items()]
        return cat("{", *_sep(parts), "}")
    if getattr(t, "_symx_set", None):
        parts = [to_repr(e) for e in x]
        body = cat("{", *_sep(parts), "}") if parts else ""
        if t._symx_set == "set":
            return body or "set()"
        return cat("frozenset(", body, ")")
    f = t.__repr__
    if hasattr(f, "__code__"):
        return f(x)
    return repr(x)


def _sep(parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(", ")
        out.append(p)
    return out


def cat(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is SymStr:
            sym = True
            out.extend(p._c)
        else:
            out.extend(p)
    return SymStr(out) if sym else "".join(out)


def fmt_value(v, conv, spec):
    """One f-string / format() replacement field."""
    if conv == "s" or conv == 115:
        v = to_str(v)
    elif conv == "r" or conv == 114:
        v = to_repr(v)
    elif conv == "a" or conv == 97:
        v = ascii(plain(v))
    if type(v) is SymInt:
        v = v.concretise()
    if spec is None or (isinstance(spec, str) and len(spec) == 0):
        if type(v) is SymStr or type(v) is str:
            return v
        f = type(v).__format__
        if f is object.__format__ or not hasattr(f, "__code__"):
            if isinstance(v, (int, float)) and not isinstance(v, Proxy):
                return format(v, "")
            return to_str(v)
        return f(v, "")
    if type(spec) is SymStr:
        spec = spec.pinned()
    if type(v) is SymStr:
        import re as _re

        m = _re.fullmatch(r"(?:(.)?([<>]))?(\d+)?s?", spec)
        if m and not (m.group(3) or "").startswith("0"):
            w = int(m.group(3) or 0)
            fill = m.group(1) or " "
            return v.rjust(w, fill) if m.group(2) == ">" else v.ljust(w, fill)
        v = v.pinned()
    return format(v, spec)


def str_format(tmpl, args, kwargs):
    parts = []
    auto = 0
    fm = _string.Formatter()
    for lit, field, spec, conv in fm.parse(tmpl):
        parts.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        import _string as _cs

        first, rest = _cs.formatter_field_name_split(field)
        obj = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, nm in rest:
            obj = getattr(obj, nm) if is_attr else obj[nm]
        if spec:
            spec = str_format(spec, args, kwargs)
        parts.append(fmt_value(obj, conv, spec))
    return cat(*parts)


# ------------------------------------------------------------------ model values
def model_str(s, model=None):
    """Concrete value of a string under a model of the path condition."""
    if type(s) is not SymStr:
        return s
    m = model if model is not None else eng().ensure_model()
    return "".join(c if type(c) is str else chr(m.eval(c, model_completion=True).as_long()) for c in s._c)


def plain(x):
    """Fork until concrete (foreign code needs a native value)."""
    t = type(x)
    if t is SymStr:
        return x.pinned()
    if t is SymInt:
        return x.concretise()
    if t is SymBool:
        return bool(x)
    if isinstance(x, Proxy) and hasattr(t, "_resolve"):
        return plain(x._resolve())
    if hasattr(t, "_symx_plain"):
        return x._symx_plain()
    if t is list:
        return [plain(e) for e in x]
    if t is tuple:
        return tuple(plain(e) for e in x)
    if getattr(t, "_symx_dict", False):
        return {plain(k): plain(v) for k, v in x.items()}
    if t is dict:
        return {plain(k): plain(v) for k, v in x.items()}
    st = getattr(t, "_symx_set", None)
    if st == "set":
        return {plain(e) for e in x}
    if st == "frozenset":
        return frozenset(plain(e) for e in x)
    return x


def has_sym(x, depth=3):
    t = type(x)
    if t is str or t is int or x is None or t is bool:
        return False
    if isinstance(x, Proxy) or t in (SymStr, SymInt, SymBool):
        return True
    if getattr(t, "_symx_dict", False) or getattr(t, "_symx_set", None):
        return True
    if depth and t in (list, tuple):
        return any(has_sym(e, depth - 1) for e in x)
    if depth and t is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False
