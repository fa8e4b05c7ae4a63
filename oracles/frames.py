"""What the hints of DataFrames have to say, judged on the real objects and the generated text."""
from __future__ import annotations

import ast

from .module import Bad, _outer, admits, sub, union_members


def is_frame(v):
    import pandas as pd

    return isinstance(v, pd.DataFrame)


def is_series(v):
    import pandas as pd

    return isinstance(v, pd.Series)


def labels_of(df):
    """First-level labels in order, each once; None when they are not all texts, ints or bools."""
    cols = list(df.columns)
    multi = [isinstance(c, tuple) for c in cols]
    if any(multi):
        if not all(multi) or any(len(c) == 1 for c in cols) or df.columns.nlevels == 1:
            return None
        cols = [c[0] for c in cols]
    if not all(isinstance(c, (str, bool, int)) for c in cols):
        return None
    out = []
    for c in cols:
        if c not in out:
            out.append(c)
    return out


def hinted(df, strategy):
    """Whether a class of its own describes the columns."""
    if strategy == "Do not type hint columns" or not len(df.columns):
        return False
    labels = labels_of(df)
    if labels is None:
        return False
    # one label for several columns, all of them selected by it: indexing gives the frame itself
    return not (len(df.columns) > 1 and len(set(df.columns)) == 1)


def overloads(c):
    out = []
    last = None
    for b in c.body:
        if isinstance(b, ast.Expr):
            continue
        if not isinstance(b, ast.FunctionDef) or b.name != "__getitem__":
            raise Bad(f"unexpected member of {c.name}: {ast.unparse(b)[:60]}")
        args = b.args.args
        if [a.arg for a in args] != ["self", "key"] or b.returns is None:
            raise Bad(f"unexpected signature in {c.name}")
        deco = [ast.unparse(d) for d in b.decorator_list]
        ann = args[1].annotation
        if deco == ["overload"] and sub(ann)[0] == "Literal":
            out.append(([literal(x) for x in sub(ann)[1]], b.returns))
        elif deco in (["overload"], []):
            last = (deco, ann)
            rest = b
        else:
            raise Bad(f"unexpected decorators in {c.name}")
    if last is None or last[0] != []:
        raise Bad(f"{c.name} has no implementation of __getitem__ at its end")
    return out, rest.args.args[1].annotation


def literal(x):
    try:
        return ast.literal_eval(x)
    except ValueError:
        raise Bad(f"not a literal: {ast.unparse(x)}") from None


def same(a, b):
    return type(a) is type(b) and a == b


def describe(m, t, v, strategy):
    """Problems with the declared type `t` as the description of a DataFrame, a Series or a container of them."""
    h, a = sub(t)
    if h in m.decls and m.decls[h][0] == "alias":
        yield from describe(m, m.decls[h][1], v, strategy)
        return
    if is_series(v):
        if h != "pd.Series":
            yield f"a column is hinted as {ast.unparse(t)}"
            return
        if len(v) == 0:
            return
        for e in v:
            if not admits(m, a[0], e):
                yield f"{ast.unparse(t)} does not admit {e!r}"
                return
        for x in union_members(m, a[0]):
            if not any(_outer(m, x, e) and admits(m, x, e) for e in v):
                yield f"{ast.unparse(x)} of {ast.unparse(t)} is in no row"
        return
    if not is_frame(v):
        if not admits(m, t, v):
            yield f"{ast.unparse(t)} does not admit {v!r}"
        return
    if not hinted(v, strategy):
        if h != "pd.DataFrame":
            yield f"columns hinted though they cannot be or need not be: {ast.unparse(t)}"
        return
    if h not in m.decls or m.decls[h][0] != "class":
        yield f"columns {list(v.columns)} are not hinted: {ast.unparse(t)}"
        return
    c = m.decls[h][1]
    if [ast.unparse(b) for b in c.bases] != ["pd.DataFrame"]:
        yield f"{h} is no DataFrame"
        return
    per, last = overloads(c)
    labels = labels_of(v)
    if [len(x) for x, _ in per] != [1] * len(labels) or not all(same(x[0], y) for (x, _), y in zip(per, labels)):
        yield f"{h} has overloads for {[x for x, _ in per]} and columns {labels}"
        return
    for (lits, ret), lab in zip(per, labels):
        for p in describe(m, ret, v[lab], strategy):
            yield f"{h}[{lab!r}]: {p}"
            return
    head, args = sub(last)
    if head != "Union":
        yield f"{h} takes {ast.unparse(last)}"
        return
    if strategy == "Full type hint":
        lits = [literal(y) for x in args if sub(x)[0] == "Literal" for y in sub(x)[1]]
        if len(lits) != len(labels) or not all(same(x, y) for x, y in zip(lits, labels)):
            yield f"{h} takes the keys {lits} but has the columns {labels}"
        if any(sub(x)[0] in ("str", "int", "Hashable", "object", "Any") for x in args):
            yield f"{h} takes any key: {ast.unparse(last)}"
    elif not any(sub(x)[0] == "str" for x in args):
        yield f"{h} refuses the name of a column that is not known: {ast.unparse(last)}"
