"""pandas DataFrames and Series whose labels and elements are symbolic (object columns).

Only what can be decided from the labels and elements themselves is modelled; anything else asked of
them is answered by the real pandas object of the values the path is then pinned to (noted).
"""
from __future__ import annotations

from .containers import key_eq
from .core import Proxy, eng
from .data import Lazy, concrete, force


def _res(x):
    while isinstance(x, Lazy):
        x = x._resolve()
    return x


def _tuple(x):
    return isinstance(_res(x), tuple)


class _Native(Proxy):
    """Falls back to the real object (every symbolic part pinned) for what is not modelled."""

    _real_ = None

    def _symx_plain(self):
        return self._pinned()

    def _pinned(self):
        if self._real_ is None:
            from .symstr import plain

            force(self)
            eng().notes.add(f"concretised {type(self).__name__}")
            object.__setattr__(self, "_real_", self._symx_concrete(lambda y: _pin(y, plain)))
        return self._real_

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return getattr(self._pinned(), n)

    def __bool__(self):
        raise ValueError("The truth value is ambiguous")


def _pin(x, plain):
    x = _res(x)
    if type(x) in (list, tuple):
        return type(x)(_pin(e, plain) for e in x)
    if getattr(type(x), "_symx_dict", False):
        return {_pin(k, plain): _pin(v, plain) for k, v in x.items()}
    return plain(x)


class SymIndex(_Native):
    def __init__(self, labels, flat=False):
        self._labels = labels
        self._flat = flat

    def __iter__(self):
        return iter([_res(x) for x in self._labels])

    def __len__(self):
        return len(self._labels)

    def __getitem__(self, i):
        return _res(self._labels[i]) if type(i) is int else getattr(self._pinned(), "__getitem__")(i)

    def __contains__(self, x):
        return any(key_eq(_res(x), _res(y)) for y in self._labels)

    def tolist(self):
        return list(self)

    to_list = tolist

    @property
    def nlevels(self):
        t = [_res(x) for x in self._labels]
        if self._flat:
            return 1
        return len(t[0]) if t and all(type(x) is tuple for x in t) else 1

    def _symx_concrete(self, c):
        return _index([c(x) for x in self._labels], self._flat)

    def _symx_force(self, f):
        for x in self._labels:
            f(x)


def _index(labels, flat=False):
    import pandas as pd

    if flat:
        return pd.Index(labels, dtype=object, tupleize_cols=False)
    if labels and all(type(x) is tuple for x in labels):
        return pd.MultiIndex.from_tuples(labels)
    return pd.Index(labels, dtype=object if not labels else None)


class SymSeries(_Native):
    def __init__(self, items):
        self._items = items

    @property
    def __class__(self):
        import pandas as pd

        return pd.Series

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def tolist(self):
        return list(self._items)

    to_list = tolist

    def _symx_concrete(self, c):
        import pandas as pd

        s = pd.Series([None] * len(self._items), dtype=object)
        for i, x in enumerate(self._items):
            s.iat[i] = c(x)
        return s

    def _symx_force(self, f):
        for x in self._items:
            f(x)


class SymFrame(_Native):
    def __init__(self, labels, cols, flat=False, rows=None):
        self._labels = labels
        self._cols = cols
        self._rows = rows
        self._flat = flat  # tuples are labels and no levels

    @property
    def __class__(self):
        import pandas as pd

        return pd.DataFrame

    @property
    def index(self):
        import pandas as pd

        return self._real_.index if self._real_ is not None else pd.RangeIndex(len(self)) if self._rows is None else pd.Index(self._rows)

    @property
    def columns(self):
        return SymIndex(self._labels, self._flat)

    def keys(self):
        return self.columns

    def __iter__(self):
        return iter(self.columns)

    def __len__(self):
        return len(self._cols[0]) if self._cols else 0

    def __contains__(self, x):
        return x in self.columns

    def items(self):
        for lab, col in zip(self._labels, self._cols):
            yield _res(lab), SymSeries(col)

    def __getitem__(self, k):
        k = _res(k)
        labels = [_res(x) for x in self._labels]
        if type(k) in (list, slice) or isinstance(k, _Native):
            return self._pinned()[k]
        multi = bool(labels) and not self._flat and all(type(x) is tuple for x in labels)
        if multi and type(k) is not tuple:
            if any(len(x) == 1 for x in labels):
                return self._pinned()[k]
            pick = [i for i, x in enumerate(labels) if key_eq(x[0], k)]
            if not pick:
                raise KeyError(k)
            rest = [labels[i][1:] for i in pick]
            rest = [x[0] if len(x) == 1 else x for x in rest]
            if len(rest) == 1 and type(rest[0]) is not tuple and _empty(rest[0]):
                return SymSeries(self._cols[pick[0]])
            return SymFrame(rest, [self._cols[i] for i in pick])
        pick = [i for i, x in enumerate(labels) if key_eq(x, k)]
        if not pick:
            raise KeyError(k)
        if len(pick) == 1:
            return SymSeries(self._cols[pick[0]])
        return SymFrame([labels[i] for i in pick], [self._cols[i] for i in pick], self._flat)

    def _symx_concrete(self, c):
        import pandas as pd

        df = pd.DataFrame({i: SymSeries(col)._symx_concrete(c) for i, col in enumerate(self._cols)})
        df.columns = _index([c(x) for x in self._labels], self._flat)
        if self._rows is not None:
            df.index = self._rows
        return df

    def _symx_force(self, f):
        for x in self._labels:
            f(x)
        for col in self._cols:
            for x in col:
                f(x)


def _empty(x):
    from .symstr import SymStr

    return type(x) in (str, SymStr) and len(x) == 0
