"""Path-exploring symbolic executor: solver, decision trail, symbolic booleans and integers.

One Engine explores one job. A path is one execution of the harness; every time the code under
test needs the truth value of a symbolic condition, `branch` asks z3 which outcomes are possible
under the path condition, takes one and queues the other. When `explore` finishes without hitting a
budget, every feasible path within the harness's bounds has been executed.
"""
from __future__ import annotations

import sys
import time

if "z3" not in sys.modules:
    _vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if _vt not in sys.path:
        sys.path.append(_vt)
import z3


class Abort(BaseException):
    """Base of the signals that steer exploration (never caught by code under test)."""


class PathInfeasible(Abort):
    """An assumption excluded this path."""


class PathCut(Abort):
    """A budget was exhausted on this path: it is left unexplored (reported, never counted)."""


class Proxy:
    """Marker base class of every symbolic stand-in."""

    __slots__ = ()


ENG: "Engine | None" = None


def eng() -> "Engine":
    assert ENG is not None
    return ENG


class _Decision:
    __slots__ = ("value", "alt", "alt_model", "cond", "pushed", "pin")

    def __init__(self, value, alt, alt_model, cond, pushed):
        self.value = value
        self.alt = alt
        self.alt_model = alt_model
        self.cond = cond
        self.pushed = pushed
        self.pin = None


class Stats:
    FIELDS = ("paths", "infeasible", "cut", "queries", "sat", "unsat", "unknown", "solver_s", "branches", "concretised")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, query_timeout_ms=20000, max_decisions=4000):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_timeout_ms)
        self.trail = []
        self.pos = 0
        self.model = None
        self.stats = Stats()
        self.max_decisions = max_decisions
        self.vars = {}
        self.base = []
        self.level = 0
        self.known = {}
        self.keep = []
        self.fresh = 0
        self.notes = set()
        self.diverged = False
        self.extra = {}

    # ------------------------------------------------------------------ variables
    def _var(self, name, mk, dom):
        v = self.vars.get(name)
        if v is None:
            v = mk(name)
            self.vars[name] = v
            # declared during this path at the current level; domain constraints are global facts
            d = dom(v)
            if d is not None:
                self._base_add(d)
        return v

    def _base_add(self, c):
        # Domain constraints hold on every path: re-added at level 0 is not possible while levels are
        # pushed, so they are asserted now and re-asserted after each backtrack that pops this level.
        self.base.append([c, self.level])
        self.solver.add(c)
        m = self.model
        if m is not None and not z3.is_true(m.eval(c, model_completion=True)):
            self.model = None

    def int_var(self, name, lo, hi):
        return self._var(f"i:{name}[{lo},{hi}]", z3.Int, lambda v: z3.And(v >= lo, v <= hi))

    def char_var(self, name, dom):
        return self._var("c:" + name, lambda n: z3.BitVec(n, 8), dom)

    # ------------------------------------------------------------------ solving
    def push(self):
        self.solver.push()
        self.level += 1

    def pop(self):
        self.solver.pop()
        self.level -= 1

    def _check(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r != z3.sat:
                raise PathCut()
            self.model = self.solver.model()
        return self.model

    def branch(self, cond) -> bool:
        """Truth value of a z3 condition on this path (forking when both are possible)."""
        if cond is True or cond is False:
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cid = cond.get_id()
        k = self.known.get(cid)
        if k is not None:
            return k
        self.stats.branches += 1
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.cond.get_id() != cid:
                self.diverged = True
                raise PathCut("nondeterministic path")
            self.pos += 1
            self._learn(cond, cid, d.value)
            return d.value
        if len(self.trail) >= self.max_decisions:
            raise PathCut()
        m = self.ensure_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        self.push()
        self.solver.add(other)
        r = self._check()
        if r == z3.sat:
            alt_model = self.solver.model()
            self.pop()
            self.push()
            self.solver.add(cond if side else z3.Not(cond))
            d = _Decision(side, True, alt_model, cond, True)
        elif r == z3.unsat:
            self.pop()
            d = _Decision(side, False, None, cond, False)
        else:
            # unknown: keep the side the model proves feasible, report the other as unexplored
            self.pop()
            self.push()
            self.solver.add(cond if side else z3.Not(cond))
            d = _Decision(side, False, None, cond, True)
            self.stats.cut += 1
        self.trail.append(d)
        self.pos += 1
        self._learn(cond, cid, side)
        return side

    def _learn(self, cond, cid, value):
        self.known[cid] = value
        self.keep.append(cond)
        n = z3.Not(cond)
        self.known[n.get_id()] = not value
        self.keep.append(n)

    def assume(self, cond):
        if not self.branch_assume(cond):
            raise PathInfeasible()

    def branch_assume(self, cond):
        """Like branch, but the false side is never explored (an assumption)."""
        if cond is True or cond is False:
            return cond
        cid = cond.get_id()
        k = self.known.get(cid)
        if k is not None:
            return k
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.cond.get_id() != cid:
                self.diverged = True
                raise PathCut("nondeterministic path")
            self.pos += 1
            if d.value:
                self._learn(cond, cid, True)
            return d.value
        m = self.ensure_model()
        if z3.is_true(m.eval(cond, model_completion=True)):
            self.push()
            self.solver.add(cond)
            self.trail.append(_Decision(True, False, None, cond, True))
            self.pos += 1
            self._learn(cond, cid, True)
            return True
        self.push()
        self.solver.add(cond)
        r = self._check()
        if r == z3.sat:
            self.model = self.solver.model()
            self.trail.append(_Decision(True, False, None, cond, True))
            self.pos += 1
            self._learn(cond, cid, True)
            return True
        self.pop()
        if r != z3.unsat:
            raise PathCut()
        self.trail.append(_Decision(False, False, None, cond, False))
        self.pos += 1
        return False

    # ------------------------------------------------------------------ exploration
    def _backtrack(self):
        while self.trail:
            d = self.trail[-1]
            if d.pushed:
                self.pop()
            if d.alt:
                d.value = not d.value
                d.alt = False
                keep = self.level
                self.push()
                self.solver.add(d.cond if d.value else z3.Not(d.cond))
                d.pushed = True
                m = d.alt_model
                d.alt_model = None
                # variables declared after the query that produced alt_model are unconstrained in it
                for b in self.base:
                    if b[1] > keep:
                        self.solver.add(b[0])
                        b[1] = self.level
                        if m is not None and not z3.is_true(m.eval(b[0], model_completion=True)):
                            m = None
                self.model = m
                return True
            self.trail.pop()
        return False

    def explore(self, run, on_path, deadline=None, max_paths=None):
        """Run `run()` once per feasible path; `on_path(outcome)` sees each completed one.

        Returns True when every path was executed (no budget was hit)."""
        global ENG
        prev, ENG = ENG, self
        complete = True
        try:
            while True:
                self.pos = 0
                self.known = {}
                self.keep = []
                self.fresh = 0
                self.extra = {}
                try:
                    out = run()
                    if self.diverged:
                        raise PathCut()
                    self.stats.paths += 1
                    if on_path(out) == "stop":
                        return complete
                except PathInfeasible:
                    self.stats.infeasible += 1
                except PathCut as cut:
                    self.stats.cut += 1
                    self.notes.add("cut: " + (str(cut) or "budget"))
                    self.diverged = False
                # decisions beyond pos cannot exist on a completed path
                while len(self.trail) > self.pos:
                    d = self.trail.pop()
                    if d.pushed:
                        self.pop()
                if not self._backtrack():
                    break
                if (deadline is not None and time.time() > deadline) or (
                    max_paths is not None and self.stats.paths >= max_paths
                ):
                    complete = False
                    break
        finally:
            ENG = prev
        return complete and not self.stats.cut and not self.stats.unknown

    # ------------------------------------------------------------------ values
    def value(self, term):
        """A value of the term on this path (model of the path condition)."""
        m = self.ensure_model()
        v = m.eval(term, model_completion=True)
        return v.as_long()

    def pin(self, term, const):
        """Fork on the value of a term until it is a constant on this path."""
        self.stats.concretised += 1
        tid = term.get_id()
        for _ in range(4096):
            if self.pos < len(self.trail):
                p = self.trail[self.pos].pin
                v = p[1] if p is not None and p[0] == tid else self.value(term)
                if self.branch(const(v)):
                    return v
            else:
                v = self.value(term)
                n = len(self.trail)
                r = self.branch(const(v))
                if len(self.trail) > n:
                    self.trail[n].pin = (tid, v)
                    self.keep.append(term)
                if r:
                    return v
        raise PathCut("value budget")

    def choose(self, name, n):
        """Symbolic choice in [0, n): forks lazily, one feasibility query per alternative."""
        if n <= 1:
            return 0
        v = self.int_var("choice:" + name, 0, n - 1)
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        return n - 1


class SymBool(Proxy):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    @property
    def __class__(self):
        return bool

    def _o(self, other):
        if isinstance(other, SymBool):
            return other.e
        if other is True or other is False:
            return z3.BoolVal(other)
        return None

    def __and__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else SymBool(z3.And(self.e, x))

    __rand__ = __and__

    def __or__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else SymBool(z3.Or(self.e, x))

    __ror__ = __or__

    def __xor__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else SymBool(z3.Xor(self.e, x))

    __rxor__ = __xor__

    def __eq__(self, o):
        x = self._o(o)
        if x is None:
            return bool(self) == o
        return SymBool(self.e == x)

    def __ne__(self, o):
        x = self._o(o)
        if x is None:
            return bool(self) != o
        return SymBool(self.e != x)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return f"SymBool({self.e})"


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymInt(Proxy):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    @staticmethod
    def _o(o):
        if type(o) is SymInt:
            return o.e
        if type(o) is bool or type(o) is int:
            return z3.IntVal(int(o))
        if type(o) is SymBool:
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
        return None

    def _bin(self, o, f):
        x = self._o(o)
        if x is None:
            if type(o) is float:
                return f(z3.ToReal(self.e), z3.RealVal(repr(o)), True)
            return NotImplemented
        return f(self.e, x, False)

    def _cmp(self, o, f):
        x = self._o(o)
        if x is None:
            if type(o) is float:
                if o != o or o in (float("inf"), float("-inf")):
                    return f(int(0), o)
                return mkbool(f(z3.ToReal(self.e), z3.RealVal(repr(o))))
            return NotImplemented
        return mkbool(f(self.e, x))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(self.concretise())

    def __bool__(self):
        return eng().branch(self.e != 0)

    def concretise(self):
        return eng().pin(self.e, lambda v: self.e == v)

    __index__ = concretise
    __int__ = concretise

    def __float__(self):
        return float(self.concretise())

    def _num(self, o, f):
        x = self._o(o)
        if x is None:
            return NotImplemented
        return SymInt(f(self.e, x))

    def __add__(self, o):
        r = self._num(o, lambda a, b: a + b)
        return self.concretise() + o if r is NotImplemented else r

    __radd__ = __add__

    def __sub__(self, o):
        r = self._num(o, lambda a, b: a - b)
        return self.concretise() - o if r is NotImplemented else r

    def __rsub__(self, o):
        r = self._num(o, lambda a, b: b - a)
        return o - self.concretise() if r is NotImplemented else r

    def __mul__(self, o):
        if type(o) is int:
            return SymInt(self.e * o)
        return self.concretise() * o

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.e / o)  # z3 Int division by a positive constant is floor division
        return self.concretise() // o

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.e % o)
        return self.concretise() % o

    def __truediv__(self, o):
        return SymRatio(self, o)

    def __rtruediv__(self, o):
        return o / self.concretise()

    def __rfloordiv__(self, o):
        return o // self.concretise()

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return f"SymInt({self.e})"

    def __str__(self):
        return str(self.concretise())

    def __format__(self, spec):
        return format(self.concretise(), spec)


def SymRatio(a, b):
    """int / int: exact comparison against ints and floats is not modelled: concretise."""
    return a.concretise() / (b.concretise() if type(b) is SymInt else b)


def fork_int(name, lo, hi):
    return SymInt(eng().int_var(name, lo, hi))
