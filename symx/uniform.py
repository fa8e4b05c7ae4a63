"""Make generated source text uniform over a path.

After `uniform_source` the solver has decided, for every symbolic character of the text, the lexical
role it plays (identifier character, string content, ...), and for every two identifiers / string
literals whether they are equal and whether they are a reserved or otherwise special word. All texts
of the path are then equal up to a consistent renaming of ordinary identifiers and string contents,
so a verdict that only depends on that structure can be read off any one of them.
"""
from __future__ import annotations

import builtins
import keyword
import unicodedata

from .core import eng, z3
from .symstr import SymStr, _pin, char_eq, char_in, char_pred, chars_of, disj, mk, str_eq

_STABLE = lambda ch: ("a" + ch).isidentifier() and (ord(ch) < 128 or unicodedata.normalize("NFKC", ch) == ch)  # noqa: E731
_START = lambda ch: ch.isidentifier() and (ord(ch) < 128 or unicodedata.normalize("NFKC", ch) == ch)  # noqa: E731

RESERVED = sorted(
    set(keyword.kwlist)
    | {n for n in dir(builtins) if n.isidentifier() and n[0].islower()}
    | {"List", "Set", "Tuple", "Dict", "Type", "Sequence", "FrozenSet", "Mapping", "MappingProxyType", "TypedDict", "Any",
       "Union", "Optional", "NotRequired", "ReadOnly", "Callable", "Protocol", "Iterator", "Literal", "TypeAlias", "pd", "np",
       "npt", "NDArray", "ModuleType", "TextIO", "Scalar", "Hashable", "self", "cls"}
)


def uniform_source(text, extra=()):
    """Fork until the lexical structure of `text` is the same for every assignment of the path."""
    if type(text) is not SymStr:
        words, strings = [], []
    else:
        words, strings = _lex(text)
    syms = [w for w in words if type(w) is SymStr]
    distinct_equalities(words, syms, RESERVED)
    ss = [w for w in strings if type(w) is SymStr]
    distinct_equalities([*strings, *extra], ss + [e for e in extra if type(e) is SymStr], ())
    return words, strings


def distinct_equalities(everything, syms, reserved):
    g = eng()
    seen = set()
    for a in syms:
        ka = _key(a)
        for r in reserved:
            if len(r) == len(a) and ("r", ka, r) not in seen:
                seen.add(("r", ka, r))
                g.branch(str_eq(a, r))
        for b in everything:
            if b is a or len(b) != len(a):
                continue
            kb = _key(b)
            if ka == kb or (ka, kb) in seen or (kb, ka) in seen:
                continue
            seen.add((ka, kb))
            g.branch(str_eq(a, b))


def _key(s):
    return s if type(s) is str else tuple(c if type(c) is str else c.get_id() for c in s._c)


def _lex(text):
    g = eng()
    c = list(text._c)
    n = len(c)
    words, strings = [], []

    def is_(i, ch):
        return i < n and g.branch(char_eq(c[i], ch))

    i = 0
    while i < n:
        x = c[i]
        sym = type(x) is not str
        if g.branch(char_pred(x, "u_start", _START)):
            j = i + 1
            while j < n and g.branch(char_pred(c[j], "u_cont", _STABLE)):
                j += 1
            words.append(mk(c[i:j]))
            i = j
            continue
        if sym:
            # anything else outside a string is structural: make it concrete
            c[i] = x = _pin(x)
            continue
        if x == "#":
            while i < n and not is_(i, "\n"):
                i += 1
            continue
        if x in "\"'":
            triple = is_(i + 1, x) and is_(i + 2, x)
            q = x * (3 if triple else 1)
            j = i + len(q)
            start = j
            while j < n:
                y = c[j]
                if triple:
                    if is_(j, x) and is_(j + 1, x) and is_(j + 2, x):
                        break
                elif is_(j, x):
                    break
                if g.branch(char_eq(y, "\\")):
                    if j + 1 < n and type(c[j + 1]) is not str:
                        c[j + 1] = _pin(c[j + 1])
                    j += 2
                    continue
                if type(y) is not str and g.branch(char_in(y, "\n\r\x00\x0c")):
                    _pin(y)
                elif type(y) is str and y == "\n" and not triple:
                    break
                j += 1
            strings.append(mk(c[start:j]))
            i = j + len(q)
            continue
        i += 1
    return words, strings
