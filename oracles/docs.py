"""Docstrings against the text they were made from."""
from __future__ import annotations


def problems(doc, text, raw_lines=None, limit=90):
    """doc: the evaluated docstring; text: what the user wrote."""
    if doc is None:
        yield f"there is no docstring for {text!r}"
        return
    tw, dw = text.split(), doc.split()
    body = text.rstrip("\n")
    if body.endswith("."):
        wants = [tw]
    else:
        wants = [tw[:-1] + [tw[-1] + "."]] if tw and not body[-1:].isspace() else [tw + ["."]]
    if dw not in wants:
        yield f"the docstring reads {dw}, the text {tw}"
        return
    # lines of the text stay apart, empty ones stay
    tb, db = breaks(body), breaks(doc.strip("\n"))
    tb.discard(len(tw))
    if not tb <= db:
        yield "lines of the text were joined"
    if all(ln == "" or ln.strip() for ln in body.split("\n")):
        tg, dg = ({x for x in gaps(t) if x < len(tw)} for t in (body, doc))
        if tg != dg:
            yield f"the empty lines are after words {dg} instead of {tg}"
    for ln in raw_lines or ():
        if len(ln) > limit and len(ln.split()) > 1:
            yield f"a line has {len(ln)} characters"


def breaks(t):
    """Word counts after which a line ends."""
    out, n = set(), 0
    for ln in t.split("\n"):
        k = len(ln.split())
        n += k
        if k:
            out.add(n)
    return out


def gaps(t):
    out, n, started = set(), 0, False
    for ln in t.split("\n"):
        k = len(ln.split())
        if k:
            started = True
        elif started:
            out.add(n)
        n += k
    return out
