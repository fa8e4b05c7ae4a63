"""Containers whose elements need a description of their own: each has one, and each description describes something."""
from __future__ import annotations

import ast

from .module import sub, union_members


def judge(m, t, v, is_leaf, describe, exclusive=True):
    if is_leaf(v) or not isinstance(v, (list, tuple, dict)):
        yield from describe(t, v)
        return
    h, a = sub(t)
    if h in m.decls and m.decls[h][0] == "alias":
        yield from judge(m, m.decls[h][1], v, is_leaf, describe, exclusive)
        return
    if isinstance(v, dict):
        if h in m.decls and m.decls[h][0] == "td":
            for k, (ft, _, _) in m.decls[h][1].fields.items():
                yield from judge(m, ft, v[k], is_leaf, describe, exclusive)
            return
        if h not in ("Dict", "Mapping"):
            yield f"a dictionary is hinted as {ast.unparse(t)}"
            return
        alts, vs = union_members(m, a[1]), list(v.values())
    elif h == "Tuple" and not (len(a) == 2 and sub(a[1])[0] == "..."):
        if len(a) != len(v):
            yield f"{len(v)} elements are hinted as {ast.unparse(t)}"
            return
        for x, y in zip(a, v):
            yield from judge(m, x, y, is_leaf, describe, exclusive)
        return
    elif len(a) != (2 if h == "Tuple" else 1):
        yield f"a {type(v).__name__} is hinted as {ast.unparse(t)}"
        return
    else:
        alts, vs = union_members(m, a[0]), list(v)
    hit = [False] * len(alts)
    for x in vs:
        why = [list(judge(m, t, x, is_leaf, describe, exclusive)) for t in alts]
        ok = [not w for w in why]
        if not any(ok):
            yield f"no alternative of {[ast.unparse(t) for t in alts]} describes {x!r}: {why[0][0]}"
            return
        if exclusive and is_leaf(x) and sum(ok) > 1:
            yield f"two alternatives describe {x!r}"
        hit = [p or q for p, q in zip(hit, ok)]
    if not all(hit):
        yield f"{ast.unparse(alts[hit.index(False)])} describes nothing"
