"""Symbolic input data: lazily chosen shapes, symbolic scalars, and their concrete values under a model."""
from __future__ import annotations

import types

from .containers import SDict, SFrozenSet, SSet
from .core import Proxy, SymBool, SymInt, eng, mkbool, z3
from .symstr import SymStr, bv, char_in, in_ranges, mk, model_str, plain


class Lazy(Proxy):
    """A value whose alternative is picked (by forking) the first time anything looks at it."""

    def __init__(self, name, alts):
        self._name = name
        self._alts = alts
        self._v = _UNSET

    def _resolve(self):
        if self._v is _UNSET:
            i = eng().choose(self._name, len(self._alts))
            v = self._alts[i]
            self._v = v() if isinstance(v, types.FunctionType) else v
        return self._v

    @property
    def __class__(self):
        from .instrument import sym_type

        return sym_type(self._resolve())

    def __getattr__(self, n):
        if n in ("_name", "_alts", "_v"):
            raise AttributeError(n)
        return getattr(self._resolve(), n)

    def __setattr__(self, n, v):
        if n in ("_name", "_alts", "_v"):
            object.__setattr__(self, n, v)
        else:
            setattr(self._resolve(), n, v)

    def __repr__(self):
        return f"Lazy({self._name})"

    def __bool__(self):
        return bool(self._resolve())

    def __len__(self):
        return len(self._resolve())

    def __iter__(self):
        return iter(self._resolve())

    def __next__(self):
        return next(self._resolve())

    def __hash__(self):
        return hash(self._resolve())

    def __index__(self):
        return self._resolve().__index__()

    def __call__(self, *a, **k):
        return self._resolve()(*a, **k)

    def __setitem__(self, k, v):
        self._resolve()[k] = v

    def __delitem__(self, k):
        del self._resolve()[k]


_UNSET = object()


def _fwd(n):
    def f(self, *a):
        v = self._resolve()
        a = [x._resolve() if isinstance(x, Lazy) else x for x in a]
        import operator

        return getattr(operator, n)(v, *a)

    return f


for _n in ("eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "or_", "and_", "getitem", "contains", "truediv", "floordiv", "mod"):
    setattr(Lazy, f"__{_n.rstrip('_')}__", _fwd(_n))


class EnumStr(Lazy):
    """One of a few strings, decided by the solver only when code distinguishes them."""

    @property
    def __class__(self):
        return str

    def _test(self, i):
        return eng().int_var(f"choice:{self._name}", 0, len(self._alts) - 1) == i

    def __eq__(self, o):
        if self._v is not _UNSET:
            return self._v == o
        if type(o) is str:
            if o in self._alts:
                return bool(eng().branch(self._test(self._alts.index(o))))
            return False
        if o is self:
            return True
        return self._resolve() == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._resolve())

    def _symx_in(self, box):
        if self._v is not _UNSET:
            return self._v in box
        e = [self._test(self._alts.index(b)) for b in box if type(b) is str and b in self._alts]
        if not e:
            return False
        return bool(eng().branch(z3.Or(*e) if len(e) > 1 else e[0]))


def enum(name, *values):
    return EnumStr(name, list(values)) if len(values) > 1 else values[0]


# ------------------------------------------------------------------ symbolic scalars
LETTER = [(65, 90), (97, 122)]
LOWER = [(97, 122)]
PRINT = [(32, 126)]
LATIN1 = [(32, 126), (161, 172), (174, 255)]
ANY1 = [(0, 255)]


def sym_chars(name, n, dom=LATIN1):
    g = eng()
    tag = ",".join(f"{a}-{b}" for a, b in dom)
    return tuple(g.char_var(f"{name}[{i}]<{tag}>", lambda v: _dom(v, dom)) for i in range(n))


def _dom(v, dom):
    t = in_ranges(v, dom)
    return None if t is True else t


def sym_str(name, n, dom=LATIN1):
    return mk(sym_chars(name, n, dom))


def chars(s):
    """Domain (code point ranges) of an explicit alphabet."""
    return [(ord(c), ord(c)) for c in sorted(set(s))]


def sym_int(name, lo, hi):
    return SymInt(eng().int_var(name, lo, hi))


def sym_bool(name):
    return SymBool(eng().int_var(name, 0, 1) == 1)


def lazy(name, *alts):
    return Lazy(name, list(alts))


def lazy_str_enum(name, *values):
    return Lazy(name, list(values))


SCALARS = ("int", "str", "float", "bool", "None")


def scalar(name, kinds=SCALARS):
    """A scalar of any listed kind; the kind is chosen when looked at, the value stays symbolic."""
    mkr = {
        "int": lambda: sym_int(name + ".i", -1, 2),
        "str": lambda: sym_str(name + ".s", 1, [(32, 126)]),
        "float": lambda: Lazy(name + ".f", [1.0, 0.0]),
        "bool": lambda: sym_bool(name + ".b"),
        "None": lambda: None,
    }
    return Lazy(name, [mkr[k] for k in kinds])


# ------------------------------------------------------------------ forcing and concrete values
def force(x, depth=12):
    """Resolve every lazy choice (forking), so that the whole shape is decided on this path."""
    t = type(x)
    if t is Lazy or t is EnumStr:
        return force(x._resolve(), depth)
    if depth == 0:
        return x
    if t in (list, tuple):
        for e in x:
            force(e, depth - 1)
    elif getattr(t, "_symx_dict", False) or t is dict:
        for k, v in x.items():
            force(k, depth - 1)
            force(v, depth - 1)
    elif getattr(t, "_symx_set", None):
        for e in x._d:
            force(e, depth - 1)
    elif t is types.MappingProxyType:
        for v in x.values():
            force(v, depth - 1)
    elif isinstance(x, SymIter):
        for v in x.items:
            force(v, depth - 1)
    elif hasattr(t, "_symx_force"):
        t._symx_force(x, lambda y: force(y, depth - 1))
    return x


class SymIter(Proxy):
    """An iterator over a fixed symbolic content (list iterator in the concrete run)."""

    def __init__(self, items):
        self.items = list(items)
        self.i = 0

    @property
    def __class__(self):
        return type(iter([]))

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[self.i - 1]


def concrete(x, m=None):
    """Native value of symbolic data under the model of the path."""
    if m is None:
        m = eng().ensure_model()
    t = type(x)
    if x is None or t in (str, int, float, bool):
        return x
    if t is SymStr:
        return model_str(x, m)
    if t is SymInt:
        return m.eval(x.e, model_completion=True).as_long()
    if t is SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if t is Lazy or t is EnumStr:
        if x._v is _UNSET:
            n = len(x._alts)
            i = 0
            if n > 1:
                v = eng().vars.get(f"i:choice:{x._name}[0,{n - 1}]")
                if v is not None:
                    i = m.eval(v, model_completion=True).as_long()
                    i = i if 0 <= i < n else 0
            v = x._alts[i]
            x._v = v() if isinstance(v, types.FunctionType) else v
        return concrete(x._v, m)
    if t is list:
        return [concrete(e, m) for e in x]
    if t is tuple:
        return tuple(concrete(e, m) for e in x)
    if getattr(t, "_symx_dict", False):
        return {concrete(e[0], m): concrete(e[1], m) for e in x._e.values()}
    if t is dict:
        return {concrete(k, m): concrete(v, m) for k, v in x.items()}
    st = getattr(t, "_symx_set", None)
    if st == "set":
        return {concrete(e, m) for e in x._d}
    if st == "frozenset":
        return frozenset(concrete(e, m) for e in x._d)
    if t is types.MappingProxyType:
        return types.MappingProxyType({concrete(k, m): concrete(x[k], m) for k in x.keys()})
    if t is SymIter:
        return iter([concrete(e, m) for e in x.items])
    if hasattr(t, "_symx_concrete"):
        return x._symx_concrete(lambda y: concrete(y, m))
    if isinstance(x, Proxy) and hasattr(x, "_s"):
        return model_str(x._s, m)
    return x


def is_native(x):
    return not isinstance(x, Proxy)


def open_(x):
    while isinstance(x, Lazy):
        x = x._resolve()
    return x


def parts(x, out=None):
    """Every object the value is made of."""
    out = [] if out is None else out
    x = open_(x)
    out.append(x)
    t = type(x)
    if t in (SSet, SFrozenSet) or isinstance(x, (list, tuple, set, frozenset)):
        for e in x:
            parts(e, out)
    elif isinstance(x, SymIter):
        for e in x.items:
            parts(e, out)
    elif t is SDict or isinstance(x, (dict, types.MappingProxyType)):
        for k in x.keys():
            out.append(open_(k))
            parts(x[k], out)
    return out
