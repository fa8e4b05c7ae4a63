"""`re` over symbolic strings: a backtracking matcher over the parsed pattern, forking per character test."""
from __future__ import annotations

import re

try:
    from re import _constants as C
    from re import _parser as P
except ImportError:  # pragma: no cover
    import sre_constants as C
    import sre_parse as P

from .core import SymBool, eng, z3
from .symstr import SymStr, bv, char_eq, char_pred, chars_of, conj, disj, mk

_PARSED = {}


def _word(ch):
    return ch.isalnum() or ch == "_"


_CAT = {
    C.CATEGORY_DIGIT: ("re_d", str.isdecimal),
    C.CATEGORY_NOT_DIGIT: ("re_D", lambda c: not c.isdecimal()),
    C.CATEGORY_SPACE: ("re_s", str.isspace),
    C.CATEGORY_NOT_SPACE: ("re_S", lambda c: not c.isspace()),
    C.CATEGORY_WORD: ("re_w", _word),
    C.CATEGORY_NOT_WORD: ("re_W", lambda c: not _word(c)),
}


def _neg(t):
    return (not t) if isinstance(t, bool) else z3.Not(t)


class Unsupported(Exception):
    pass


class _M:
    def __init__(self, pat, flags, s):
        self.s = chars_of(s)
        self.flags = flags
        self.n = len(self.s)
        self.g = eng()

    def test(self, t):
        return self.g.branch(t)

    def lit(self, c, code):
        ch = chr(code)
        if self.flags & re.I:
            return disj([char_eq(c, x) for x in {ch, ch.lower(), ch.upper()} if len(x) == 1])
        return char_eq(c, ch)

    def one(self, op, av, c):
        if op is C.LITERAL:
            return self.lit(c, av)
        if op is C.NOT_LITERAL:
            return _neg(self.lit(c, av))
        if op is C.ANY:
            return True if self.flags & re.S else _neg(char_eq(c, "\n"))
        if op is C.IN:
            neg, terms = False, []
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    terms.append(self.lit(c, a))
                elif o is C.RANGE:
                    if self.flags & re.I:
                        raise Unsupported("range with IGNORECASE")
                    lo, hi = a
                    terms.append(char_pred(c, ("rng", lo, hi), lambda ch: lo <= ord(ch) <= hi))
                elif o is C.CATEGORY:
                    terms.append(char_pred(c, *_CAT[a]))
                else:
                    raise Unsupported(str(o))
            t = disj(terms)
            return _neg(t) if neg else t
        raise Unsupported(str(op))

    def isword(self, i):
        return self.test(char_pred(self.s[i], "re_w", _word)) if 0 <= i < self.n else False

    def seq(self, ops, k, i, groups):
        """Yield (end, groups) for matching ops[k:] at i, in Python's priority order."""
        if k == len(ops):
            yield i, groups
            return
        op, av = ops[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i < self.n and self.test(self.one(op, av, self.s[i])):
                yield from self.seq(ops, k + 1, i + 1, groups)
            return
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (
                    av is C.AT_BEGINNING and self.flags & re.M and self.test(char_eq(self.s[i - 1], "\n"))
                )
            elif av is C.AT_END_STRING:
                ok = i == self.n
            elif av is C.AT_END:
                ok = i == self.n or (
                    (i == self.n - 1 or self.flags & re.M) and self.test(char_eq(self.s[i], "\n"))
                )
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                b = self.isword(i - 1) != self.isword(i)
                ok = b if av is C.AT_BOUNDARY else not b
            else:
                raise Unsupported(str(av))
            if ok:
                yield from self.seq(ops, k + 1, i, groups)
            return
        if op is C.SUBPATTERN:
            gid, add, dele, p = av
            if add or dele:
                raise Unsupported("inline flags")
            for e, gr in self.seq(list(p), 0, i, groups):
                if gid is not None:
                    gr = dict(gr)
                    gr[gid] = (i, e)
                yield from self.seq(ops, k + 1, e, gr)
            return
        if op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt) + list(ops[k + 1 :]), 0, i, groups)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            hi = None if hi is C.MAXREPEAT else hi
            yield from self.rep(list(p), lo, hi, op is C.MAX_REPEAT, ops, k, i, groups, 0, -1)
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            found = None
            if d > 0:
                for _, gr in self.seq(list(p), 0, i, groups):
                    found = gr
                    break
            else:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsupported("variable lookbehind")
                if i - w[0] >= 0:
                    for e, gr in self.seq(list(p), 0, i - w[0], groups):
                        if e == i:
                            found = gr
                            break
            if (found is not None) == (op is C.ASSERT):
                yield from self.seq(ops, k + 1, i, found if found is not None else groups)
            return
        if op is C.GROUPREF:
            if av not in groups:
                return
            a, b = groups[av]
            L = b - a
            if i + L <= self.n and self.test(conj([char_eq(x, y) for x, y in zip(self.s[a:b], self.s[i : i + L])])):
                yield from self.seq(ops, k + 1, i + L, groups)
            return
        raise Unsupported(str(op))

    def rep(self, p, lo, hi, greedy, ops, k, i, groups, n, last):
        can = (hi is None or n < hi) and not (n > lo and i == last)
        if n < lo:
            for e, gr in self.seq(p, 0, i, groups):
                yield from self.rep(p, lo, hi, greedy, ops, k, e, gr, n + 1, i)
            return
        if greedy:
            if can:
                for e, gr in self.seq(p, 0, i, groups):
                    if e == i:
                        continue
                    yield from self.rep(p, lo, hi, greedy, ops, k, e, gr, n + 1, i)
            yield from self.seq(ops, k + 1, i, groups)
        else:
            yield from self.seq(ops, k + 1, i, groups)
            if can:
                for e, gr in self.seq(p, 0, i, groups):
                    if e == i:
                        continue
                    yield from self.rep(p, lo, hi, greedy, ops, k, e, gr, n + 1, i)


class Match:
    def __init__(self, pat, s, start, end, groups, ngroups, names):
        self.re, self.string = pat, s
        self._sp = {0: (start, end), **groups}
        self._n, self._names = ngroups, names
        self.pos, self.endpos = 0, len(s)

    def _gid(self, g):
        return self._names[g] if isinstance(g, str) else g.__index__()

    def span(self, g=0):
        g = self._gid(g)
        if g > self._n:
            raise IndexError("no such group")
        return self._sp.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        a, b = self.span(g)
        return None if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if self._one(i) is None else self._one(i) for i in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {k: (default if self._one(v) is None else self._one(v)) for k, v in self._names.items()}

    @property
    def lastindex(self):
        return max((i for i in self._sp if i), default=None)

    def __bool__(self):
        return True


class Pattern:
    """Parsed pattern usable on symbolic strings."""

    def __init__(self, pattern, flags=0):
        if isinstance(pattern, re.Pattern):
            pattern, flags = pattern.pattern, pattern.flags
        if type(pattern) is SymStr:
            pattern = pattern.pinned()
        key = (pattern, int(flags))
        if key not in _PARSED:
            p = P.parse(pattern, int(flags))
            _PARSED[key] = p
        self._p = _PARSED[key]
        self.pattern = pattern
        self.flags = self._p.state.flags
        self.groups = self._p.state.groups - 1
        self.groupindex = self._p.state.groupdict
        self._ops = list(self._p)

    def _at(self, m, s, i, full=False):
        for e, gr in m.seq(self._ops, 0, i, {}):
            if full and e != len(s):
                continue
            return Match(self, s, i, e, gr, self.groups, self.groupindex)
        return None

    def match(self, s, pos=0):
        return self._at(_M(self, self.flags, s), s, pos)

    def fullmatch(self, s, pos=0):
        return self._at(_M(self, self.flags, s), s, pos, full=True)

    def search(self, s, pos=0):
        m = _M(self, self.flags, s)
        for i in range(pos, len(s) + 1):
            r = self._at(m, s, i)
            if r is not None:
                return r
        return None

    def finditer(self, s, pos=0):
        i, last_empty_at = pos, -1
        m = _M(self, self.flags, s)
        while i <= len(s):
            r = None
            for j in range(i, len(s) + 1):
                r = self._at(m, s, j)
                if r is not None:
                    break
            if r is None:
                return
            a, b = r.span()
            yield r
            i = b if b > a else b + 1
            # (an empty match adjacent to a previous match is allowed since Python 3.7)

    def findall(self, s, pos=0):
        out = []
        for r in self.finditer(s, pos):
            g = r.groups("")
            out.append(r.group() if not g else (g[0] if len(g) == 1 else g))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        from .symstr import cat

        parts, last, k = [], 0, 0
        tmpl = None
        if not callable(repl):
            if type(repl) is SymStr:
                # backslashes in a replacement are escapes
                if eng().branch(disj([char_eq(c, "\\") for c in repl._c])):
                    repl = repl.pinned()
            if type(repl) is not SymStr:
                tmpl = P.parse_template(repl, re.compile(self.pattern, self.flags & ~re.UNICODE if False else self.flags))
        for r in self.finditer(s):
            if count and k >= count:
                break
            parts.append(s[last : r.start()])
            if callable(repl):
                parts.append(repl(r))
            elif tmpl is not None:
                for t in tmpl:
                    parts.append(t if isinstance(t, str) else (r.group(t) or ""))
            else:
                parts.append(repl)
            last = r.end()
            k += 1
        parts.append(s[last:])
        return cat(*parts), k

    def split(self, s, maxsplit=0):
        out, last, k = [], 0, 0
        for r in self.finditer(s):
            if maxsplit and k >= maxsplit:
                break
            out.append(s[last : r.start()])
            out.extend(r.groups())
            last = r.end()
            k += 1
        out.append(s[last:])
        return out
