"""What the hints of callables have to say, judged on the real callables and the generated text."""
from __future__ import annotations

import ast
import builtins
import inspect
import textwrap

from .module import Bad, sub

KINDS = ("posonlyargs", "args", "vararg", "kwonlyargs", "kwarg")
OF = {inspect.Parameter.POSITIONAL_ONLY: 0, inspect.Parameter.POSITIONAL_OR_KEYWORD: 1, inspect.Parameter.VAR_POSITIONAL: 2,
      inspect.Parameter.KEYWORD_ONLY: 3, inspect.Parameter.VAR_KEYWORD: 4}


def is_callable(v):
    return callable(v) and not isinstance(v, type)


def signature(f):
    try:
        return inspect.signature(f)
    except (TypeError, ValueError):
        return None


def returns(f):
    """"value" | "maybe" | "none" | "unknown": what the body of a callable gives back."""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(getattr(f, "__code__", f))))
    except (OSError, TypeError, SyntaxError):
        return "unknown"
    own, inner = [], []

    def walk(n, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.Return, ast.Yield, ast.YieldFrom)):
                (own if top else inner).append(c)
            walk(c, top and not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)))

    walk(tree.body[0], True)
    if any(not isinstance(c, ast.Return) or c.value is not None for c in own):
        return "value"
    return "maybe" if own or inner else "none"


TYPING = {"List", "Tuple", "Set", "Dict", "Type", "Sequence", "FrozenSet", "Mapping", "Any", "Union", "Optional", "Callable", "Literal", "Iterator"}


def known(names):
    """Whether hints can spell it without the module of the callable."""
    return all(hasattr(builtins, n) or n in TYPING for n in names)


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def same_annotation(node, ann):
    text = inspect.formatannotation(ann)
    if text.startswith("<class "):  # how inspect writes the classes of typing itself
        text = ann.__name__
    try:
        want = ast.parse(text, mode="eval").body
    except SyntaxError:
        want = None
    if want is not None and ast.dump(want) == ast.dump(node):
        return True
    # what the module cannot know may stand within quotes
    quoted = isinstance(node, ast.Constant) and node.value == text
    return quoted and (want is None or not known(names_in(want)))


def same_default(node, value):
    try:
        want = ast.parse(repr(value), mode="eval").body
    except SyntaxError:
        want = None
    if want is not None and ast.dump(want) == ast.dump(node):
        return True
    if ast.unparse(node) in ("...", "Ellipsis"):
        return want is None or not known(names_in(want))
    return False


def describe(m, t, f):
    """Problems with the declared type `t` as the description of a callable."""
    h, a = sub(t)
    if h in m.decls and m.decls[h][0] == "alias":
        yield from describe(m, m.decls[h][1], f)
        return
    sig = signature(f)
    if sig is None:
        if h != "Callable" or a:
            yield f"a callable without a signature is hinted as {ast.unparse(t)}"
        return
    if f.__name__ == "<lambda>":
        n = len(sig.parameters)
        if h != "Callable" or ast.unparse(t) != f"Callable[[{', '.join(['Any'] * n)}], Any]":
            yield f"a lambda of {n} parameters is hinted as {ast.unparse(t)}"
        return
    if h not in m.decls or m.decls[h][0] != "class":
        yield f"a callable is hinted as {ast.unparse(t)}"
        return
    c = m.decls[h][1]
    if [ast.unparse(b) for b in c.bases] != ["Protocol"]:
        yield f"{h} is no protocol"
        return
    if len(c.body) != 1 or not isinstance(c.body[0], (ast.FunctionDef, ast.AsyncFunctionDef)) or c.body[0].name != "__call__":
        raise Bad(f"{h} declares something else than __call__")
    d = c.body[0]
    if isinstance(d, ast.AsyncFunctionDef) != inspect.iscoroutinefunction(f):
        yield f"{h}: coroutine functions and others are mixed up"
        return
    got = []
    pos = [*d.args.posonlyargs, *d.args.args]
    dft = [None] * (len(pos) - len(d.args.defaults)) + list(d.args.defaults)
    for i, x in enumerate(pos):
        got.append((x.arg, 0 if i < len(d.args.posonlyargs) else 1, x.annotation, dft[i]))
    if d.args.vararg:
        got.append((d.args.vararg.arg, 2, d.args.vararg.annotation, None))
    for x, y in zip(d.args.kwonlyargs, d.args.kw_defaults):
        got.append((x.arg, 3, x.annotation, y))
    if d.args.kwarg:
        got.append((d.args.kwarg.arg, 4, d.args.kwarg.annotation, None))
    want = list(sig.parameters.values())
    if [(n, k) for n, k, _, _ in got] != [(w.name, OF[w.kind]) for w in want]:
        yield f"{h} takes ({ast.unparse(d.args)}) and the callable {sig}"
        return
    for (n, _, ann, default), w in zip(got, want):
        if (ann is None) != (w.annotation is w.empty) or ann is not None and not same_annotation(ann, w.annotation):
            yield f"{h}: parameter {n} is annotated otherwise than in {sig}"
            return
        if (default is None) != (w.default is w.empty) or default is not None and not same_default(default, w.default):
            yield f"{h}: parameter {n} has another default than in {sig}"
            return
    r = d.returns
    if sig.return_annotation is not sig.empty:
        if r is None or not same_annotation(r, sig.return_annotation):
            yield f"{h} returns {r and ast.unparse(r)} and the callable {sig}"
        return
    rt = returns(f)
    got_r = ast.unparse(r) if r is not None else ""
    ok = {"value": ("Any",), "none": ("None",), "unknown": ("Any",), "maybe": ("Any", "None")}[rt]
    if got_r not in ok:
        yield f"{h} returns {got_r}, the body of the callable: {rt}"
