"""A loader for the YAML subset the harnesses write, working on symbolic text.

Block and flow mappings and sequences, plain and quoted scalars on one or several lines, `|` and `>` literals,
anchors, aliases, merge keys, comments. Stands in for the user's loader in the symbolic runs; the replays on the real code use PyYAML, so that any difference between
the two shows as an encoding mismatch.
"""
from __future__ import annotations

from symx.containers import SDict


class YamlError(Exception):
    pass


def load(text):
    lines = []
    for ln in text.split("\n"):
        lines.append((_indent(ln), ln))
    p = _Parser(lines)
    p.skip()
    if p.i >= len(lines):
        return None
    v = p.block(p.lines[p.i][0])
    p.skip()
    if p.i < len(lines):
        raise YamlError("unexpected indentation")
    return v


def _indent(ln):
    n = 0
    for c in ln:
        if c == " ":
            n += 1
        else:
            break
    return n


class _Parser:
    def __init__(self, lines):
        self.lines = lines
        self.i = 0
        self.anchors = {}
        self.started = False

    def skip(self):
        while self.i < len(self.lines):
            n, ln = self.lines[self.i]
            if n < len(ln) and not ln[n] == "#":
                if not ln == "---":
                    self.started = True
                    return
                if self.started:
                    raise YamlError("another document")
                self.started = True
            self.i += 1

    def peek(self, least):
        """Indentation of the next node when it is at least `least`."""
        self.skip()
        if self.i >= len(self.lines):
            return None
        n = self.lines[self.i][0]
        return n if n >= least else None

    def block(self, n):
        ln = self.lines[self.i][1][n:]
        if _dash(ln):
            return self.seq(n)
        if _key_end(ln) is not None:
            return self.map(n)
        self.i += 1
        return self.value(ln, n - 1, None)

    def value(self, rest, n, least):
        """What follows a dash, a colon or the start of a block; `n` is the indentation of what it belongs to and `least` that
        of a node on lines of its own (None: there has to be one on this line)."""
        body = uncomment(rest, True)
        name = None
        if len(body) and body[0] == "&":
            k = 1
            while k < len(body) and not body[k] == " ":
                k += 1
            name = _text(body[1:k])
            rest = body[k:]
            body = uncomment(rest, True)
        v = self.unnamed(body, rest, n, least)
        if name is not None:
            self.anchors[name] = v
        return v

    def unnamed(self, body, rest, n, least):
        if len(body) == 0:
            if least is None:
                return None
            m = self.peek(least)
            if m is None or m == n and not _dash(self.lines[self.i][1][n:]):
                return None
            return self.block(m)
        if body[0] == "|" or body[0] == ">":
            if not any(len(body) == len(x) and body == x for x in ("|", "|-", "|+", ">", ">-", ">+")):
                raise YamlError("not part of the subset")
            return self.literal(n)
        if body[0] == "*":
            name = _text(body[1:])
            if name not in self.anchors:
                raise YamlError("no such anchor")
            return self.anchors[name]
        if body[0] == "[" or body[0] == "{":
            while not _balanced(body):
                if self.i >= len(self.lines):
                    raise YamlError("a bracket is not closed")
                more = uncomment(" " + self.lines[self.i][1])
                self.i += 1
                body = body + " " + more
            v, k = self.flow(body, 0)
            if len(body[k:].strip(" ")):
                raise YamlError("text after a bracket")
            if self.peek(n + 1) is not None:
                raise YamlError("unexpected indentation")
            return v
        if body[0] == '"' or body[0] == "'":
            q = _closing(rest.lstrip(" "))
            if q is None:
                body = rest.lstrip(" ")
                while _closing(body) is None:
                    if self.i >= len(self.lines):
                        raise YamlError("a quote is not closed")
                    body = body.rstrip(" ") + " " + self.lines[self.i][1].lstrip(" ")
                    self.i += 1
                body = uncomment(body)
            v = scalar(body)
            if self.peek(n + 1) is not None:
                raise YamlError("unexpected indentation")
            return v
        if _key_end(body) is not None:
            raise YamlError("a mapping is not allowed here")
        # a plain scalar, which goes on unless a comment ends it
        ended = not len(body) == len(rest.strip(" "))
        while not ended and self.i < len(self.lines):
            m, ln = self.lines[self.i]
            if m >= len(ln):
                k = self.i
                while k < len(self.lines) and self.lines[k][0] >= len(self.lines[k][1]):
                    k += 1
                if k == len(self.lines) or self.lines[k][0] <= n or self.lines[k][1][self.lines[k][0]] == "#":
                    break
                self.i = k
                continue
            if m <= n or ln[m] == "#":
                break
            more = uncomment(ln)
            if _key_end(more) is not None:
                raise YamlError("a mapping is not allowed here")
            ended = not len(more) == len(ln.strip(" "))
            body = body + " " + more
            self.i += 1
        if self.peek(n + 1) is not None:
            raise YamlError("unexpected indentation")
        return scalar(body)

    def flow(self, s, i):
        """Value of the flow node at s[i], and where it ends."""
        while i < len(s) and s[i] == " ":
            i += 1
        if i >= len(s):
            raise YamlError("flow")
        if s[i] == "[":
            out = []
            i += 1
            while True:
                while i < len(s) and s[i] == " ":
                    i += 1
                if i >= len(s):
                    raise YamlError("flow")
                if s[i] == "]":
                    return out, i + 1
                if s[i] == ",":
                    raise YamlError("flow")
                v, i = self.flow(s, i)
                out.append(v)
                while i < len(s) and s[i] == " ":
                    i += 1
                if i < len(s) and s[i] == ",":
                    i += 1
                elif i >= len(s) or not s[i] == "]":
                    raise YamlError("flow")
        if s[i] == "{":
            out = SDict()
            i += 1
            while True:
                while i < len(s) and s[i] == " ":
                    i += 1
                if i >= len(s):
                    raise YamlError("flow")
                if s[i] == "}":
                    return out, i + 1
                k, i = self.flow(s, i)
                while i < len(s) and s[i] == " ":
                    i += 1
                v = None
                if i < len(s) and s[i] == ":":
                    i += 1
                    while i < len(s) and s[i] == " ":
                        i += 1
                    if i < len(s) and not s[i] == "," and not s[i] == "}":
                        v, i = self.flow(s, i)
                out[k] = v
                while i < len(s) and s[i] == " ":
                    i += 1
                if i < len(s) and s[i] == ",":
                    i += 1
                elif i >= len(s) or not s[i] == "}":
                    raise YamlError("flow")
        if s[i] == '"' or s[i] == "'":
            q = _closing(s[i:])
            if q is None:
                raise YamlError("a quote is not closed")
            return scalar(s[i : i + q + 1]), i + q + 1
        j = i
        while j < len(s) and not any(bool(s[j] == c) for c in ",[]{}"):
            if s[j] == ":" and (j + 1 == len(s) or any(bool(s[j + 1] == c) for c in " ,[]{}")):
                break
            j += 1
        if j == i or s[i] == "-" and (i + 1 == len(s) or s[i + 1] == " "):
            raise YamlError("flow")
        t = s[i:j].strip(" ")
        if t[0] == "*":
            name = _text(t[1:])
            if name not in self.anchors:
                raise YamlError("no such anchor")
            return self.anchors[name], j
        return scalar(t), j

    def seq(self, n):
        out = []
        while self.peek(n) == n and _dash(self.lines[self.i][1][n:]):
            ln = self.lines[self.i][1]
            rest = ln[n + 1 :]
            k = _indent(rest)
            body = uncomment(rest, True)
            if len(body) and (_dash(rest[k:]) or _key_end(rest[k:]) is not None):
                # the rest of the line is a node at its own column
                col = n + 1 + k
                self.lines[self.i] = (col, " " * col + rest[k:])
                out.append(self.block(col))
            else:
                self.i += 1
                out.append(self.value(rest, n, n + 1))
        if self.peek(n + 1) is not None:
            raise YamlError("unexpected indentation")
        return out

    def map(self, n):
        out = SDict()
        merged = []
        while self.peek(n) == n:
            ln = self.lines[self.i][1][n:]
            if _dash(ln):
                break
            e = _key_end(ln)
            if e is None:
                raise YamlError("a key is missing")
            raw = ln[:e].strip(" ")
            key = scalar(raw)
            self.i += 1
            val = self.value(ln[e + 1 :], n, n)
            if len(raw) == 2 and raw == "<<":
                for x in val if isinstance(val, list) else [val]:
                    if not isinstance(x, dict):
                        raise YamlError("nothing to merge")
                    merged.append(x)
                continue
            out[key] = val
        if self.peek(n + 1) is not None:
            raise YamlError("unexpected indentation")
        if merged:
            own, out = out, SDict()
            for x in reversed(merged):
                for k, v in x.items():
                    out[k] = v
            for k, v in own.items():
                out[k] = v
        return out

    def literal(self, n):
        got = []
        col = None
        while self.i < len(self.lines):
            m, ln = self.lines[self.i]
            if m < len(ln):
                if m <= n:
                    break
                col = m if col is None else col
                if m < col:
                    break
                got.append(ln[col:])
            else:
                got.append(ln[col:] if col is not None and len(ln) > col else "")
            self.i += 1
        while got and len(got[-1]) == 0:
            got.pop()
        return "\n".join([]) if not got else _join(got) + "\n"


def _text(x):
    from symx.symstr import SymStr

    if type(x) is SymStr:
        raise YamlError("not part of the subset")
    return x


def _balanced(s):
    depth = 0
    i = 0
    while i < len(s):
        if (s[i] == '"' or s[i] == "'") and any(bool(s[i - 1] == c) for c in " [{,"):
            q = _closing(s[i:])
            if q is None:
                return False
            i += q
        elif s[i] == "[" or s[i] == "{":
            depth += 1
        elif s[i] == "]" or s[i] == "}":
            depth -= 1
            if depth == 0:
                return True
        i += 1
    return False


def _join(parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + "\n" + p
    return out


def _dash(ln):
    return len(ln) > 0 and ln[0] == "-" and (len(ln) == 1 or ln[1] == " ")


def _key_end(ln):
    """Where the colon of `key: value` is."""
    i = 0
    if len(ln) and (ln[0] == '"' or ln[0] == "'"):
        q = _closing(ln)
        if q is None:
            return None
        i = q + 1
        while i < len(ln) and ln[i] == " ":
            i += 1
        return i if i < len(ln) and ln[i] == ":" else None
    if len(ln) and (ln[0] == "[" or ln[0] == "{"):
        return None
    while i < len(ln):
        if ln[i] == "#" and (i == 0 or ln[i - 1] == " "):
            return None
        if ln[i] == ":" and (i + 1 == len(ln) or ln[i + 1] == " "):
            if i == 0:
                raise YamlError("a key is missing")
            return i
        i += 1
    return None


def _closing(ln):
    q = ln[0]
    i = 1
    while i < len(ln):
        if q == '"' and ln[i] == "\\":
            i += 2
            continue
        if ln[i] == q:
            if q == "'" and i + 1 < len(ln) and ln[i + 1] == "'":
                i += 2
                continue
            return i
        i += 1
    return None


def uncomment(s, open_ok=False):
    """The value on a line, without its comment."""
    s0 = s
    s = s.lstrip(" ")
    i = 0
    if len(s) and (s[0] == '"' or s[0] == "'"):
        q = _closing(s)
        if q is None:
            if open_ok:
                return s
            raise YamlError("a quote is not closed")
        i = q + 1
    while i < len(s):
        if s[i] == "#" and (i == 0 and len(s0) > len(s) or i > 0 and s[i - 1] == " "):
            return s[:i].rstrip(" ")
        i += 1
    return s.rstrip(" ")


def scalar(s):
    s = s.strip(" ")
    if len(s) == 0:
        return None
    if s[0] == '"' or s[0] == "'":
        q = _closing(s)
        if q is None or q != len(s) - 1:
            raise YamlError("text after a quoted scalar")
        t = s[1:-1]
        return t.replace("''", "'") if s[0] == "'" else t.replace('\\"', '"')
    if s[0] == "[" or s[0] == "{":
        v, k = _Parser([]).flow(s, 0)
        if k != len(s):
            raise YamlError("text after a bracket")
        return v
    if s[0] in ("*&!|>%@`,?") if type(s[0]) is str else any(bool(s[0] == c) for c in "*&!|>%@`,?]}"):
        raise YamlError("not part of the subset")
    for w, v in (("null", None), ("~", None), ("true", True), ("false", False), ("on", True), ("no", False), ("yes", True), ("off", False)):
        if len(w) == len(s) and s == w:
            return v
    d = s[1:] if len(s) > 1 and s[0] == "-" else s
    if type(d) is str and d.count(".") == 1 and d.replace(".", "").isdigit():
        return 7.5
    if len(d) <= 3 and d.isdigit() and d.isascii():
        return 7 if type(s) is not str else int(s)
    return s
