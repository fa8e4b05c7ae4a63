"""What the comments of a YAML file say about its keys, read off the file with PyYAML's own scanner."""
from __future__ import annotations

import ast

import yaml


def keys(text):
    """(key, line, column) of the block-style keys that begin with a letter and are not quoted."""
    out = []

    def walk(n, flow):
        if isinstance(n, yaml.MappingNode):
            for k, v in n.value:
                if isinstance(k, yaml.ScalarNode) and not (flow or n.flow_style) and not k.style and k.value[:1].isalpha():
                    out.append((k.value, k.start_mark.line, k.start_mark.column))
                walk(v, flow or n.flow_style)
        elif isinstance(n, yaml.SequenceNode):
            for v in n.value:
                walk(v, flow or n.flow_style)

    n = yaml.compose(text, Loader=yaml.SafeLoader)
    if n is not None:
        walk(n, False)
    return out


def side(text, lines, line):
    end = 0
    for t in yaml.scan(text, Loader=yaml.SafeLoader):
        if t.end_mark.line == line and t.start_mark.line == line and t.end_mark.index > t.start_mark.index:
            end = max(end, t.end_mark.column)
    rest = lines[line][end:].lstrip(" ")
    return rest[1:].strip() if rest.startswith("#") else ""


def block(lines, line, col, step):
    out = []
    i = line + step
    while 0 <= i < len(lines) and not lines[i][:col].strip() and lines[i][col : col + 1] == "#":
        out.append(lines[i][col + 1 :].strip())
        i += step
    return out[::step]


def comments(text, where):
    """key -> list of the words its documentation should have, one entry per occurrence of the key."""
    lines = text.split("\n")
    out = {}
    for key, line, col in keys(text):
        words = []
        for w in where:
            if w == "side":
                words += side(text, lines, line).split()
            else:
                words += " ".join(plain(c) for c in block(lines, line, col, -1 if w == "above" else 1)).split()
        out.setdefault(key, []).append(words)
    return out


def plain(s):
    return s.replace('"""', "").replace("'''", "")


def reads(doc, words):
    """The documentation says these words (a full stop may end, a capital may begin any of them)."""
    got = doc.split()
    if len(got) != len(words):
        return False
    return all(x in (w, w if w.endswith(".") else w + ".") for g, w in zip(got, words) for x in [g if g[:1] != w[:1].upper() else w[:1] + g[1:]])


class _NoDocs(ast.NodeTransformer):
    def _strip(self, n):
        self.generic_visit(n)
        n.body = [b for b in n.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str))]
        return n

    visit_Module = visit_ClassDef = _strip


def without_docs(text):
    return ast.dump(_NoDocs().visit(ast.parse(text)))
