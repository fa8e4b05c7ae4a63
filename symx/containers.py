"""dict/set stand-ins that compare keys by solver-decided equality, and structural hashes."""
from __future__ import annotations

import collections.abc as cabc

from .core import Proxy, SymBool, SymInt, eng, mkbool, z3
from .symstr import SymStr, char_eq, chars_of, conj, disj, str_eq

_SIMPLE = (str, int, float, bool, type(None), type, bytes, complex)


def is_simple(k):
    t = type(k)
    if t in _SIMPLE:
        return True
    if t is tuple:
        return all(is_simple(e) for e in k)
    if isinstance(k, Proxy) or getattr(t, "_symx_set", None) or t is SHash:
        return False
    if isinstance(k, type):
        return True
    h = t.__hash__
    # objects of the code under test are compared structurally; foreign hashables natively
    return h is not None and "__symx__" not in getattr(h, "__globals__", ())


# ------------------------------------------------------------------ structural hash
class SHash(int):
    """hash(x): equal iff the hashed structures are equal (collision freedom is assumed)."""

    def __new__(cls, key):
        self = int.__new__(cls, _shape(key))
        self.key = key
        return self

    def __eq__(self, o):
        if type(o) is SHash:
            return mkbool(hkey_eq(self.key, o.key))
        if type(o) is int:
            return int(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) and type(r) is bool else SymBool(z3.Not(r.e))

    def __hash__(self):
        return int(self)


def hkey(x):
    """Structure whose equality decides hash equality."""
    t = type(x)
    if t is SHash:
        return x.key
    if t is SymStr or t is SymInt:
        return x
    if t is SymBool:
        return bool(x)
    if t is tuple:
        return ("T",) + tuple(hkey(e) for e in x)
    st = getattr(t, "_symx_set", None)
    if st == "frozenset" or t is frozenset:
        return ("F", [hkey(e) for e in x])
    if st == "set" or getattr(t, "_symx_dict", False) or t in (list, dict, set, bytearray):
        name = "dict" if getattr(t, "_symx_dict", False) else ("set" if st else t.__name__)
        raise TypeError(f"unhashable type: '{name}'")
    if isinstance(x, Proxy) and hasattr(t, "_resolve"):
        return hkey(x._resolve())
    if t in _SIMPLE or isinstance(x, type):
        return x
    h = t.__hash__
    if h is None:
        raise TypeError(f"unhashable type: '{t.__name__}'")
    if hasattr(h, "__code__"):
        r = h(x)
        return hkey(r) if type(r) in (SHash, SymInt) else ("H", r)
    return ("O", hash(x))


def _shape(k):
    """An int that agrees on keys that could be equal under some assignment."""
    t = type(k)
    if t is tuple:
        if k and k[0] == "F" and type(k[0]) is str and len(k) == 2 and type(k[1]) is list:
            return 7
        r = 3
        for e in k:
            r = (r * 31 + _shape(e)) & 0xFFFFFFF
        return r
    if t is list:
        return 7
    if t is str or t is SymStr:
        return 11
    if t is SymInt or isinstance(k, (int, float)):
        return 13
    if isinstance(k, type):
        return 17
    return 19


def hkey_eq(a, b):
    """z3 term (or bool): equality of two hash keys."""
    ta, tb = type(a), type(b)
    if a is b:
        return True
    sa, sb = ta is str or ta is SymStr, tb is str or tb is SymStr
    if sa or sb:
        return str_eq(a, b) if sa and sb else False
    if ta is tuple or tb is tuple:
        if ta is not tb or len(a) != len(b):
            return False
        fa = bool(a) and type(a[0]) is str and a[0] == "F" and len(a) == 2 and type(a[1]) is list
        fb = bool(b) and type(b[0]) is str and b[0] == "F" and len(b) == 2 and type(b[1]) is list
        if fa or fb:
            if not (fa and fb):
                return False
            x, y = a[1], b[1]
            if len(x) != len(y):
                return False
            return conj([disj([hkey_eq(e, f) for f in y]) for e in x])
        return conj([hkey_eq(x, y) for x, y in zip(a, b)])
    if ta is SymInt or tb is SymInt:
        r = a == b
        return r.e if type(r) is SymBool else bool(r)
    r = a == b
    return r.e if type(r) is SymBool else bool(r)


def shash(x):
    return SHash(hkey(x))


def key_eq(a, b) -> bool:
    """Would a native dict/set consider the two keys equal? Decided on this path."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if isinstance(a, Proxy) and hasattr(ta, "_resolve"):
        return key_eq(a._resolve(), b)
    if isinstance(b, Proxy) and hasattr(tb, "_resolve"):
        return key_eq(a, b._resolve())
    sa, sb = ta is str or ta is SymStr, tb is str or tb is SymStr
    if sa and sb:
        return eng().branch(str_eq(a, b))
    if sa or sb:
        return False
    if is_simple(a) and is_simple(b):
        return a == b
    if ta is SymInt or tb is SymInt:
        return bool(a == b)
    if not eng().branch(hkey_eq(hkey(a), hkey(b))):
        return False
    return bool(a == b)


_MISSING = object()


class SDict(dict):
    """Insertion-ordered dict; the native storage stays empty, everything goes through these methods."""

    _symx_dict = True

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._e = {}  # slot -> [key, value], insertion ordered
        self._i = {}  # simple concrete key -> slot
        self._x = []  # slots whose key is not simple
        self._n = 0
        self.update(*a, **k)

    def _find(self, key):
        if isinstance(key, Proxy) and hasattr(type(key), "_resolve"):
            key = key._resolve()
        if is_simple(key):
            s = self._i.get(key)
            if s is not None:
                return s
            for s in self._x:
                if key_eq(self._e[s][0], key):
                    return s
            return None
        hkey(key)  # unhashable keys raise as they do natively
        for s, e in self._e.items():
            if key_eq(e[0], key):
                return s
        return None

    def __setitem__(self, key, value):
        if isinstance(key, Proxy) and hasattr(type(key), "_resolve"):
            key = key._resolve()
        s = self._find(key)
        if s is None:
            s = self._n
            self._n += 1
            self._e[s] = [key, value]
            if is_simple(key):
                self._i[key] = s
            else:
                self._x.append(s)
        else:
            self._e[s][1] = value

    def __getitem__(self, key):
        s = self._find(key)
        if s is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return self._e[s][1]

    def __delitem__(self, key):
        s = self._find(key)
        if s is None:
            raise KeyError(key)
        k = self._e.pop(s)[0]
        if is_simple(k):
            del self._i[k]
        else:
            self._x.remove(s)

    def __contains__(self, key):
        return self._find(key) is not None

    def __len__(self):
        return len(self._e)

    def __bool__(self):
        return bool(self._e)

    def __iter__(self):
        n = len(self._e)
        for e in list(self._e.values()):
            yield e[0]
            if len(self._e) != n:
                raise RuntimeError("dictionary changed size during iteration")

    def __reversed__(self):
        return iter([e[0] for e in self._e.values()][::-1])

    def keys(self):
        return SKeys(self)

    def items(self):
        return SItems(self)

    def values(self):
        return SValues(self)

    def get(self, key, default=None):
        s = self._find(key)
        return default if s is None else self._e[s][1]

    def setdefault(self, key, default=None):
        s = self._find(key)
        if s is None:
            self[key] = default
            return default
        return self._e[s][1]

    def pop(self, key, default=_MISSING):
        s = self._find(key)
        if s is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        v = self._e[s][1]
        del self[self._e[s][0]]
        return v

    def popitem(self):
        if not self._e:
            raise KeyError("popitem(): dictionary is empty")
        k, v = list(self._e.values())[-1]
        del self[k]
        return k, v

    def clear(self):
        self._e.clear()
        self._i.clear()
        self._x.clear()

    def update(self, *a, **k):
        if a and a[0] is not None:
            src = a[0]
            if hasattr(src, "keys"):
                for key in src.keys():
                    self[key] = src[key]
            else:
                for key, v in src:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def copy(self):
        c = self._blank()
        for k, v in self._e.values():
            s = c._n
            c._n += 1
            c._e[s] = [k, v]
            if is_simple(k):
                c._i[k] = s
            else:
                c._x.append(s)
        return c

    def _blank(self):
        return SDict()

    __copy__ = copy

    def __deepcopy__(self, memo):
        from copy import deepcopy

        c = self._blank()
        for k, v in self._e.values():
            c[deepcopy(k, memo)] = deepcopy(v, memo)
        return c

    def __reduce_ex__(self, proto):
        return (SDict, (), None, None, iter([(k, v) for k, v in self._e.values()]))

    @classmethod
    def fromkeys(cls, it, value=None):
        d = SDict()
        for k in it:
            d[k] = value
        return d

    def __or__(self, o):
        c = self.copy()
        c.update(o)
        return c

    def __ror__(self, o):
        c = SDict(o)
        c.update(self)
        return c

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in (o if isinstance(o, SDict) else SDict(o)):
                return False
            w = o[k] if isinstance(o, SDict) else SDict(o)[k]
            if not (v is w or v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self._e.values()) + "}"

    @property
    def __class__(self):
        return dict


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **k):
        SDict.__init__(self, *a, **k)
        self.default_factory = factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def _blank(self):
        return SDefaultDict(self.default_factory)

    @property
    def __class__(self):
        import collections

        return collections.defaultdict


class SKeys(cabc.KeysView):
    def __contains__(self, k):
        return k in self._mapping

    def __iter__(self):
        return iter(self._mapping)

    def __len__(self):
        return len(self._mapping)

    @classmethod
    def _from_iterable(cls, it):
        return SSet(it)

    def __repr__(self):
        return f"dict_keys({list(self._mapping)!r})"

    @property
    def __class__(self):
        return type({}.keys())

    def __reversed__(self):
        return reversed(self._mapping)


class SItems(cabc.ItemsView):
    def __iter__(self):
        m = self._mapping
        n = len(m)
        for k, v in [tuple(e) for e in m._e.values()]:
            yield (k, v)
            if len(m) != n:
                raise RuntimeError("dictionary changed size during iteration")

    @classmethod
    def _from_iterable(cls, it):
        return SSet(it)

    @property
    def __class__(self):
        return type({}.items())

    def __reversed__(self):
        return iter([tuple(e) for e in self._mapping._e.values()][::-1])


class SValues(cabc.ValuesView):
    def __iter__(self):
        m = self._mapping
        n = len(m)
        for e in list(m._e.values()):
            yield e[1]
            if len(m) != n:
                raise RuntimeError("dictionary changed size during iteration")

    @property
    def __class__(self):
        return type({}.values())

    def __reversed__(self):
        return iter([e[1] for e in self._mapping._e.values()][::-1])


# ------------------------------------------------------------------ sets
class _SetBase:
    """Shared by the mutable and the frozen stand-in. Iteration order is the adversary's choice when
    the engine asks for it (`extra['set_order']`), insertion order otherwise."""

    def _init(self, it=()):
        self._d = SDict()
        for x in it:
            self._d[x] = True

    def __contains__(self, x):
        return x in self._d

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(len(self._d))

    def __iter__(self):
        items = list(self._d)
        from . import core

        g = core.ENG
        order = g.extra.get("set_order") if g is not None else None
        if order is not None and len(items) > 1:
            items = order(self, items)
        n = len(self._d)
        for x in items:
            yield x
            if len(self._d) != n:
                raise RuntimeError("Set changed size during iteration")

    def _mk(self, it):
        return type(self)(it)

    def copy(self):
        c = self._mk(())
        c._d = self._d.copy()
        return c

    __copy__ = copy

    def __deepcopy__(self, memo):
        from copy import deepcopy

        return self._mk([deepcopy(x, memo) for x in self._d])

    def __reduce_ex__(self, proto):
        return (type(self), (list(self._d),))

    def union(self, *o):
        return self._mk([*self._d, *(x for s in o for x in s)])

    def intersection(self, *o):
        o = [s if isinstance(s, (set, frozenset, dict, cabc.Set)) else SSet(s) for s in o]
        return self._mk([x for x in self._d if all(_in(s, x) for s in o)])

    def difference(self, *o):
        o = [s if isinstance(s, (set, frozenset, dict, cabc.Set)) else SSet(s) for s in o]
        return self._mk([x for x in self._d if not any(_in(s, x) for s in o)])

    def symmetric_difference(self, o):
        o = SSet(o)
        return self._mk([*(x for x in self._d if x not in o), *(x for x in o._d if x not in self)])

    def issubset(self, o):
        o = o if isinstance(o, (set, frozenset, dict, cabc.Set)) else SSet(o)
        return all(_in(o, x) for x in self._d)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _ok(self, o):
        return isinstance(o, (set, frozenset, cabc.Set))

    def __or__(self, o):
        return self.union(o) if self._ok(o) else NotImplemented

    def __ror__(self, o):
        return self._mk([*o, *self._d]) if self._ok(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._ok(o) else NotImplemented

    def __rand__(self, o):
        return self._mk([x for x in o if x in self]) if self._ok(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._ok(o) else NotImplemented

    def __rsub__(self, o):
        return self._mk([x for x in o if x not in self]) if self._ok(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._ok(o) else NotImplemented

    __rxor__ = __xor__

    def __le__(self, o):
        return self.issubset(o) if self._ok(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._ok(o) else NotImplemented

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o) if self._ok(o) else NotImplemented

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o) if self._ok(o) else NotImplemented

    def __eq__(self, o):
        if not self._ok(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return f"{self._symx_set}({list(self._d)!r})"


def _in(s, x):
    if isinstance(s, (SDict, _SetBase)):
        return x in s
    return any(key_eq(x, y) for y in s)


class SSet(_SetBase, set):
    _symx_set = "set"

    def __init__(self, it=()):
        set.__init__(self)
        self._init(it)

    @property
    def __class__(self):
        return set

    __hash__ = None

    def add(self, x):
        if x not in self._d:
            self._d[x] = True

    def discard(self, x):
        if x in self._d:
            del self._d[x]

    def remove(self, x):
        if x not in self._d:
            raise KeyError(x)
        del self._d[x]

    def pop(self):
        for x in self:
            del self._d[x]
            return x
        raise KeyError("pop from an empty set")

    def clear(self):
        self._d.clear()

    def update(self, *o):
        for s in o:
            for x in list(s):
                self.add(x)

    def intersection_update(self, *o):
        self._d = self.intersection(*o)._d

    def difference_update(self, *o):
        self._d = self.difference(*o)._d

    def symmetric_difference_update(self, o):
        self._d = self.symmetric_difference(o)._d

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


class SFrozenSet(_SetBase, frozenset):
    _symx_set = "frozenset"

    def __new__(cls, it=()):
        return frozenset.__new__(cls)

    def __init__(self, it=()):
        self._init(it)

    @property
    def __class__(self):
        return frozenset

    def __hash__(self):
        return int(shash(self))
