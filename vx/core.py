"""Symbolic values and path exploration.

The real functions of /repo are executed by CPython on the values defined here.
A branch on a symbolic condition forks the path (both sides are explored by
re-execution, infeasible sides are cut by the solver); a postcondition met at
the end of a path becomes one verification condition
        path condition  ==>  postcondition
which z3 has to refute the negation of.  Nothing is sampled: the inputs of a
path are free variables of the solver.
"""

import sys
import time
from fractions import Fraction

import z3

INT, REAL = z3.IntSort(), z3.RealSort()


class Stop(BaseException):
    """Control flow of the engine: not an exception the code may handle."""


class PathDone(Stop):
    """The rest of this path is covered by another one (loop cut, assume false)."""


class Unsupported(Stop):
    """The engine cannot follow the code here."""


class Budget(Stop):
    """Time or path budget of a contract used up."""


def _has_quant(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


class Ctx:
    """State of one path."""

    def __init__(self, prefix, ex):
        self.ex = ex
        self.prefix = prefix
        self.trace = []  # decisions taken
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.timeout_ms)
        self.solver.set("random_seed", 0)
        self.pc = []
        self.names = {}
        self.inputs = {}  # name -> proxy or concrete pick
        self.fresh_n = 0
        self.poison = None
        self.quant = False
        self.sub = None  # stack of sub-explorations (merge)
        self.loop_depth = 0

    # -- assumptions, feasibility -------------------------------------------------
    def add(self, e):
        if z3.is_true(e):
            return
        if not self.quant and _has_quant(e):
            self.quantified()
        self.pc.append(e)
        self.solver.add(e)

    def quantified(self):
        """From here on conditions have quantifiers: branches are pruned by a quick
        check only (unknown counts as feasible), proofs get the full time."""
        self.quant = True
        s = z3.SimpleSolver()
        s.set("random_seed", 0)
        s.set("mbqi", False)
        s.set("timeout", 600)
        for x in self.pc:
            s.add(x)
        self.solver = s

    def decide(self, e):
        """Satisfiability of e on this path, with all the time there is."""
        if not self.quant:
            return self.sat(e)
        t = time.time()
        self.solver.set("timeout", self.ex.timeout_ms)
        r = self.solver.check(e)
        self.solver.set("timeout", 600)
        self.ex.solver_s += time.time() - t
        self.ex.queries += 1
        return r

    def sat(self, *es):
        t = time.time()
        if not self.quant and any(_has_quant(e) for e in es):
            self.quantified()
        r = self.solver.check(*es)
        self.ex.solver_s += time.time() - t
        self.ex.queries += 1
        return r

    def assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self.add(e)
        if z3.is_false(e) or self.sat() == z3.unsat:
            raise PathDone("assume")

    def fresh(self, sort, hint="v"):
        self.fresh_n += 1
        return z3.Const(f"{hint}!{self.fresh_n}", sort)

    # -- branching ------------------------------------------------------------------
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.ex.tick()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.add(e if d[0] else z3.Not(e))
            return d[0]
        can_t = self.sat(e) != z3.unsat
        can_f = self.sat(z3.Not(e)) != z3.unsat
        if can_t and can_f:
            self.ex.push(self.trace + [(False, 2)])
            d = (True, 2)
        elif can_t:
            d = (True, 1)
        elif can_f:
            d = (False, 1)
        else:
            raise PathDone("infeasible")
        self.pos += 1
        self.trace.append(d)
        self.add(e if d[0] else z3.Not(e))
        return d[0]

    def choose(self, n):
        """n-way choice that is not a condition on the input's value."""
        if n == 1:
            return 0
        self.ex.tick()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d[0]
        for i in range(n - 1, 0, -1):
            self.ex.push(self.trace + [(i, n)])
        self.pos += 1
        self.trace.append((0, n))
        return 0


CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError("no symbolic context")
    return CTX


def active():
    return CTX is not None


class Obligation:
    __slots__ = ("name", "status", "model", "secs", "path", "backend", "note")

    def __init__(self, name, status, model=None, secs=0.0, path=0, note=""):
        self.name, self.status, self.model = name, status, model
        self.secs, self.path, self.note = secs, path, note
        self.backend = "z3"


class Exploration:
    def __init__(self, thunk, timeout_ms=8000, max_paths=20000, max_secs=600):
        self.thunk = thunk
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = time.time() + max_secs
        self.stack = [[]]
        self.obligations = []
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.completed = 0
        self.unsupported = []
        self.exceptions = []  # (repr, inputs-model)
        self.reached = set()

    def push(self, prefix):
        self.stack.append(prefix)

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time")

    def run(self):
        global CTX
        while self.stack:
            prefix = self.stack.pop()
            self.paths += 1
            if self.paths > self.max_paths or time.time() > self.deadline:
                self.unsupported.append("budget: %d paths" % self.paths)
                break
            c = Ctx(prefix, self)
            CTX = c
            try:
                self.thunk(c)
                if c.poison:
                    raise c.poison
                self.completed += 1
            except PathDone:
                pass
            except Unsupported as e:
                self.unsupported.append(str(e))
            except Budget as e:
                self.unsupported.append("budget: " + str(e))
                break
            except RecursionError:
                self.unsupported.append("recursion limit")
            finally:
                CTX = None
        return self


def stop(exc):
    """Raise an engine exception in a way a bare ``except:`` cannot swallow."""
    if CTX is not None and CTX.poison is None:
        CTX.poison = exc
    raise exc


def unsupported(msg):
    stop(Unsupported(msg))


# ---------------------------------------------------------------------------------
# numbers and booleans


def is_sym(x):
    return isinstance(x, (SBool, SNum, SStr))


def zbool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        if CTX is None:
            e = z3.simplify(self.e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            raise RuntimeError("symbolic truth value outside a path")
        return CTX.branch(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.e == zbool(o))
        if isinstance(o, (int, SNum)):
            return self.num() == o
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def num(self):
        return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __hash__(self):
        return _symhash("SBool")

    def __repr__(self):
        return f"<{z3.simplify(self.e)}>"


ALLOW_HASH = [False]


def _symhash(what):
    if ALLOW_HASH[0]:
        return 7
    unsupported(f"native hash of a symbolic {what}")


def _isnum(x):
    if isinstance(x, (SNum, SBool, int, Fraction)):
        return True
    return type(x).__module__.startswith("sympy") and getattr(x, "is_Rational", False)


def znum(x):
    if isinstance(x, SNum):
        return x.e
    if isinstance(x, SBool):
        return x.num().e
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(Fraction(x))
    if type(x).__module__.startswith("sympy") and getattr(x, "is_Rational", False):
        return z3.RealVal(Fraction(int(x.p), int(x.q)))
    raise TypeError(f"not a number: {x!r}")


def _coerce(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == INT:
        return z3.ToReal(a), b
    return a, z3.ToReal(b)


class SNum:
    """A mathematical integer or rational (no overflow, no rounding)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return self.e.sort() == INT

    def _bin(self, o, f, swap=False):
        if not (_isnum(o) or isinstance(o, float)):
            return NotImplemented
        a, b = _coerce(self.e, znum(o))
        if swap:
            a, b = b, a
        return SNum(z3.simplify(f(a, b)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return rep(o, self)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return SNum(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        a, b = z3.ToReal(self.e) if self.is_int else self.e, znum(o)
        if b.sort() == INT:
            b = z3.ToReal(b)
        if bool(SBool(b == 0)):
            raise ZeroDivisionError("division by zero")
        return SNum(z3.simplify(a / b))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return SNum(znum(o)) / self

    def _divmod(self, o, swap=False):
        if not (self.is_int and _isnum(o)):
            unsupported("// or % on rationals")
        a, b = self.e, znum(o)
        if swap:
            a, b = b, a
        if b.sort() != INT:
            unsupported("// or % on rationals")
        if bool(SBool(b == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bool(SBool(b > 0)):
            return a / b, a % b
        # python floors: a // b == -a // -b, a % b == -((-a) % (-b))
        return (-a) / (-b), -((-a) % (-b))

    def __floordiv__(self, o):
        return SNum(z3.simplify(self._divmod(o)[0]))

    def __rfloordiv__(self, o):
        return SNum(z3.simplify(self._divmod(o, True)[0]))

    def __mod__(self, o):
        return SNum(z3.simplify(self._divmod(o)[1]))

    def __rmod__(self, o):
        return SNum(z3.simplify(self._divmod(o, True)[1]))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = SNum(z3.IntVal(1) if self.is_int else z3.RealVal(1))
            for _ in range(o):
                r = r * self
            return r
        unsupported("symbolic power")

    def _cmp(self, o, f):
        if not (_isnum(o) or isinstance(o, float)):
            return NotImplemented
        a, b = _coerce(self.e, znum(o))
        return SBool(z3.simplify(f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(SBool(self.e != 0))

    def concrete(self):
        """The value when it is determined, else None."""
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_rational_value(s):
            return s.as_fraction()
        return None

    def __index__(self):
        return self.enumerate()

    __int__ = __index__

    def enumerate(self, limit=40):
        """Fork over the values the number can take (complete when it returns)."""
        c = self.concrete()
        if c is not None:
            if isinstance(c, Fraction):
                if c.denominator != 1:
                    raise TypeError("not an integer")
                return int(c)
            return c
        k = ctx()
        for _ in range(limit):
            # the candidate has to be the same on re-execution
            lo = _least(k, self.e)
            if bool(SBool(self.e == lo)):
                return lo
        unsupported(f"number with more than {limit} values: {self.e}")

    def __hash__(self):
        if ALLOW_HASH[0]:
            return 7
        c = self.concrete()
        if c is not None:
            return hash(c)
        return _symhash("number")

    def __repr__(self):
        c = self.concrete()
        return f"<{z3.simplify(self.e)}>" if c is None else str(c)

    # sympy-like face
    @property
    def is_Rational(self):
        return True


def _least(k, e):
    """Smallest value of e on this path at or above a bound known from below."""
    for v in range(-1, 64):
        if k.sat(e == v) == z3.sat:
            return v
    unsupported("no small value")


def rep(seq, n):
    """``seq * n`` with symbolic n."""
    if isinstance(seq, list) and len(seq) == 1:
        c = n.concrete()
        if c is not None:
            return seq * c
        return RepList(seq[0], n)
    return seq * n.enumerate()


class RepList:
    """``[x] * n`` for a symbolic n >= 0."""

    def __init__(self, x, n):
        self.x, self.n = x, n

    def __len__(self):
        return self.n.enumerate()

    def __iter__(self):
        return iter([self.x] * len(self))

    def __eq__(self, o):
        if isinstance(o, RepList):
            return SBool(
                z3.And(self.n.e == o.n.e, z3.Or(self.n.e <= 0, zbool(self.x == o.x)))
            )
        if isinstance(o, (list, tuple)):
            return len(self) == len(o) and all(a == b for a, b in zip(self, o))
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return _symhash("list")


# ---------------------------------------------------------------------------------
# strings

STRLEN = z3.StringSort()


class Dig:
    """One decimal digit, 0 <= e <= 9."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Atom:
    """An opaque piece of text.

    key: z3 term; two atoms of the same kind are equal iff their keys are.
    no: characters that do not occur in it.  lo: least length (0 or 1).
    kind: 'opaque' (key is a z3 String), or a tag such as 'posrat' (the decimal
    rendering of a positive rational; key is the rational).
    """

    __slots__ = ("key", "kind", "no", "lo", "only")

    def __init__(self, key, kind="opaque", no="", lo=0, only=None):
        self.key, self.kind, self.no, self.lo, self.only = key, kind, no, lo, only

    def can(self, ch):
        if self.only is not None:
            return ch in self.only
        return ch not in self.no


def _units(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def _pack(units):
    out = []
    for u in units:
        if isinstance(u, str) and out and isinstance(out[-1], str):
            out[-1] += u
        elif u != "" or not isinstance(u, str):
            out.append(u)
    return out


def mkstr(units):
    ps = _pack(units)
    if not ps:
        return ""
    if len(ps) == 1 and isinstance(ps[0], str):
        return ps[0]
    return SStr(ps)


def _unit_eq(a, b):
    """z3 Bool for equality of two single-character units, or None if an atom."""
    if isinstance(a, Atom) or isinstance(b, Atom):
        if isinstance(a, Atom) and isinstance(b, Atom) and a.kind == b.kind:
            if a.kind != "opaque" or True:
                return a.key == b.key
        return None
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    if isinstance(a, Dig) and isinstance(b, Dig):
        return a.e == b.e
    if isinstance(a, str):
        a, b = b, a
    return a.e == int(b) if b in "0123456789" and len(b) == 1 else z3.BoolVal(False)


def units_of(x):
    return _units(x.pieces) if isinstance(x, SStr) else list(x)


def str_eq(x, y):
    a, b = units_of(x), units_of(y)
    conds = []

    def strip(a, b, rev):
        while a and b:
            i = -1 if rev else 0
            u, v = a[i], b[i]
            ua, va = isinstance(u, Atom), isinstance(v, Atom)
            if ua and va:
                if u.kind == v.kind and z3.eq(u.key, v.key):
                    a.pop(i), b.pop(i)
                    continue
                if len(a) == 1 and len(b) == 1 and u.kind == v.kind:
                    conds.append(u.key == v.key)
                    a.pop(i), b.pop(i)
                    continue
                return True
            if ua or va:
                return True
            e = z3.simplify(_unit_eq(u, v))
            if z3.is_false(e):
                return False
            if not z3.is_true(e):
                conds.append(e)
            a.pop(i), b.pop(i)
        return True

    if not strip(a, b, False) or not strip(a, b, True):
        return False
    if not a and not b:
        return SBool(z3.And(conds)) if conds else True
    if not a or not b:
        rest = a or b
        if any(not isinstance(u, Atom) or u.lo > 0 for u in rest):
            return False
        return SBool(z3.And(conds + [u.key == z3.StringVal("") for u in rest]))
    # atoms against something else: separators decide, when they cannot hide in atoms
    r = _align(a, b)
    if r is False:
        return False
    if r is not None:
        return SBool(z3.And(conds + r)) if conds + r else True
    for u, v in ((a, b), (b, a)):
        if isinstance(u[0], Atom) and not isinstance(v[0], Atom) and u[0].lo:
            ch = v[0]
            if isinstance(ch, str) and not u[0].can(ch):
                return False
        if isinstance(u[-1], Atom) and not isinstance(v[-1], Atom) and u[-1].lo:
            ch = v[-1]
            if isinstance(ch, str) and not u[-1].can(ch):
                return False
    for u, v in ((a, b), (b, a)):
        # a literal character that nothing on the other side can produce
        for ch in u:
            if isinstance(ch, str) and not any(
                (isinstance(w, str) and w == ch)
                or (isinstance(w, Dig) and ch.isdigit())
                or (isinstance(w, Atom) and w.can(ch))
                for w in v
            ):
                return False
        n = sum(1 for w in u if not isinstance(w, Atom)) + sum(
            w.lo for w in u if isinstance(w, Atom)
        )
        if not any(isinstance(w, Atom) for w in v) and n > len(v):
            return False
    za, zb = _z3str(a), _z3str(b)
    if za is None or zb is None:
        unsupported("string comparison: %r == %r" % (mkstr(a), mkstr(b)))
    return SBool(z3.And(conds + [za == zb]))


def _align(a, b):
    """Split both sides at characters that no atom of either side can contain."""
    seps = {
        u
        for u in a + b
        if isinstance(u, str)
        and not u.isdigit()
        and not any(isinstance(w, Atom) and w.can(u) for w in a + b)
    }
    if not seps:
        return None
    sa, sb = _split(a, seps), _split(b, seps)
    if [x for x in sa[1]] != [x for x in sb[1]]:
        return False
    conds = []
    for x, y in zip(sa[0], sb[0]):
        r = str_eq(mkstr(x), mkstr(y))
        if r is False:
            return False
        if isinstance(r, SBool):
            conds.append(r.e)
    return conds


def _split(units, seps):
    segs, ss, cur = [], [], []
    for u in units:
        if isinstance(u, str) and u in seps:
            segs.append(cur)
            ss.append(u)
            cur = []
        else:
            cur.append(u)
    segs.append(cur)
    return segs, ss


def _z3str(units):
    out = []
    for u in _pack(units):
        if isinstance(u, str):
            out.append(z3.StringVal(u))
        elif isinstance(u, Dig):
            out.append(z3.IntToStr(u.e))
        elif u.kind == "opaque":
            out.append(u.key)
        else:
            return None
    if not out:
        return z3.StringVal("")
    return out[0] if len(out) == 1 else z3.Concat(*out)


class SStr:
    """Text made of literal characters, symbolic digits and opaque pieces."""

    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = _pack(_units(pieces))

    # building ------------------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return mkstr(units_of(self) + units_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return mkstr(units_of(o) + units_of(self))
        return NotImplemented

    def __mul__(self, n):
        return mkstr(units_of(self) * n)

    # looking -------------------------------------------------------------------
    def __eq__(self, o):
        if not isinstance(o, (str, SStr)):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def _fixed(self):
        us = units_of(self)
        if any(isinstance(u, Atom) for u in us):
            return None
        return us

    def __len__(self):
        us = self._fixed()
        if us is None:
            unsupported("len of an opaque string")
        return len(us)

    def __bool__(self):
        us = units_of(self)
        if any(not isinstance(u, Atom) or u.lo for u in us):
            return True
        return bool(SBool(z3.Or([u.key != z3.StringVal("") for u in us])))

    def __iter__(self):
        us = self._fixed()
        if us is None:
            unsupported("iteration over an opaque string")
        return iter([mkstr([u]) for u in us])

    def __getitem__(self, i):
        us = units_of(self)
        if isinstance(i, slice):
            a, b, st = i.start, i.stop, i.step
            if st == -1 and a is None and b is None and self._fixed() is not None:
                return mkstr(us[::-1])
            if st not in (None, 1):
                unsupported("string slice with step")

            def at(n, default):
                """unit position of character position n, if no atom is crossed"""
                if n is None:
                    return default
                if n >= 0:
                    if any(isinstance(u, Atom) for u in us[:n]):
                        unsupported("slice across an opaque piece")
                    return min(n, len(us))
                if any(isinstance(u, Atom) for u in us[n:]):
                    unsupported("slice across an opaque piece")
                return max(len(us) + n, 0)

            return mkstr(us[at(a, 0) : at(b, len(us))])
        if isinstance(i, SNum):
            i = i.enumerate()
        if i >= 0:
            if any(isinstance(u, Atom) for u in us[:i]):
                unsupported("index across an opaque piece")
            if i >= len(us):
                raise IndexError("string index out of range")
        else:
            if any(isinstance(u, Atom) for u in (us[i + 1 :] if i < -1 else [])):
                unsupported("index across an opaque piece")
            if -i > len(us):
                raise IndexError("string index out of range")
        u = us[i]
        if isinstance(u, Atom):
            if u.kind == "opaque":
                if not u.lo and bool(SBool(u.key == z3.StringVal(""))):
                    rest = us[:i] + us[i + 1 :] if i >= 0 else us[:i] + us[len(us) + i + 1 :]
                    return mkstr(rest)[i]
                e = (
                    z3.SubString(u.key, 0, 1)
                    if i >= 0
                    else z3.SubString(u.key, z3.Length(u.key) - 1, 1)
                )
                return SStr([Atom(e, "opaque", no=u.no, lo=1, only=u.only)])
            return SStr([Atom(z3.Function("char0", u.key.sort(), STRLEN)(u.key), "opaque", no=u.no, lo=1, only=u.only)])
        return mkstr([u])

    def __contains__(self, o):
        if not isinstance(o, str) or len(o) != 1:
            us = self._fixed()
            if isinstance(o, str) and us is not None and all(isinstance(u, str) for u in us):
                return o in "".join(us)
            if isinstance(o, str) and o and any(
                not any(
                    (isinstance(u, str) and u == ch)
                    or (isinstance(u, Dig) and ch.isdigit())
                    or (isinstance(u, Atom) and u.can(ch))
                    for u in units_of(self)
                )
                for ch in o
            ):
                return False
            if isinstance(o, str) and o in "".join(
                u if isinstance(u, str) else "\0" for u in units_of(self)
            ):
                return True
            unsupported("substring test on a symbolic string")
        conds = []
        for u in units_of(self):
            if isinstance(u, Atom):
                if u.can(o):
                    if u.kind != "opaque":
                        unsupported("substring test on an opaque piece")
                    conds.append(z3.Contains(u.key, z3.StringVal(o)))
            else:
                conds.append(_unit_eq(u, o))
        return bool(SBool(z3.Or(conds)))

    def __lt__(self, o):
        return _str_lt(self, o)

    def __gt__(self, o):
        return _str_lt(o, self)

    def __le__(self, o):
        r = _str_lt(o, self)
        return ~r if isinstance(r, SBool) else not r

    def __ge__(self, o):
        r = _str_lt(self, o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return _symhash("string")

    def __repr__(self):
        return "S'" + "".join(
            p if isinstance(p, str) else "{%s}" % (p.e if isinstance(p, Dig) else p.key)
            for p in self.pieces
        ) + "'"

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        us = units_of(self)
        ps = units_of(p)
        conds = []
        for k, ch in enumerate(ps):
            if k >= len(us):
                return False
            u = us[k]
            if isinstance(u, Atom):
                if isinstance(ch, str) and u.lo and not u.can(ch):
                    return False
                c0 = self[k]
                r = str_eq(c0, ch) if isinstance(ch, str) else None
                if k == len(ps) - 1 and r is not None:
                    if isinstance(r, SBool):
                        conds.append(r.e)
                        continue
                    if r is False:
                        return False
                    continue
                unsupported("startswith across an opaque piece")
            e = z3.simplify(_unit_eq(u, ch))
            if z3.is_false(e):
                return False
            conds.append(e)
        return bool(SBool(z3.And(conds))) if conds else True

    def endswith(self, p):
        us = units_of(self)
        ps = units_of(p)
        conds = []
        for k in range(1, len(ps) + 1):
            if k > len(us):
                return False
            u, ch = us[-k], ps[-k]
            if isinstance(u, Atom):
                if isinstance(ch, str) and u.lo and not u.can(ch):
                    return False
                unsupported("endswith across an opaque piece")
            e = z3.simplify(_unit_eq(u, ch))
            if z3.is_false(e):
                return False
            conds.append(e)
        return bool(SBool(z3.And(conds))) if conds else True

    def split(self, sep=None, maxsplit=-1):
        us = units_of(self)
        ws = " \t\n" if sep is None else sep
        if not isinstance(ws, str) or (sep is not None and len(sep) != 1):
            unsupported("split")
        for u in us:
            if isinstance(u, Atom) and any(u.can(c) for c in ws):
                unsupported("split of an opaque piece")
        if maxsplit != -1:
            unsupported("split with maxsplit")
        segs, _ = _split(us, set(ws))
        out = [mkstr(s) for s in segs]
        if sep is None:
            out = [s for s in out if not (isinstance(s, str) and s == "")]
        return out

    def _replace_ends(self, us, ous, nus):
        """The text to replace ends with a character that is only in known places."""
        out = []
        for u in us:
            out.append(u)
            if u != ous[-1] if isinstance(u, str) else True:
                continue
            k, hit = len(out) - 1, True
            for v in reversed(ous):
                if k < 0:
                    hit = False
                    break
                w = out[k]
                k -= 1
                if isinstance(v, str) and isinstance(w, str):
                    hit = v == w
                elif isinstance(v, str) and isinstance(w, Dig):
                    hit = v.isdigit() and bool(SBool(_unit_eq(w, v)))
                elif isinstance(v, Atom) and isinstance(w, Atom) and v.kind == w.kind and v.key.eq(w.key):
                    hit = True
                elif isinstance(v, str) and isinstance(w, Atom) and not w.can(v) and w.lo:
                    hit = False
                else:
                    unsupported("replace across an opaque piece")
                if not hit:
                    break
            if hit:
                del out[k + 1:]
                out.extend(nus)
        return mkstr(out)

    def replace(self, old, new, count=-1):
        us = units_of(self)
        ous = units_of(old)
        last = ous[-1] if ous else None
        if isinstance(last, str) and len(ous) > 1 and last not in ous[:-1] and count < 0 and not any(
            u.can(last) for u in us + ous[:-1] if isinstance(u, Atom)
        ) and not any(isinstance(u, Dig) for u in ous) and not last.isdigit():
            return self._replace_ends(us, ous, units_of(new))
        if not isinstance(old, str) or not old:
            unsupported("replace of a symbolic string")
        out, n, i = [], 0, 0
        while i < len(us):
            u = us[i]
            if count >= 0 and n >= count:
                out.extend(us[i:])
                break
            if isinstance(u, Atom) and any(u.can(ch) for ch in old):
                if len(old) == 1 and u.kind == "opaque" and (
                    count < 0 or n < count
                ):
                    if not bool(SBool(z3.Contains(u.key, z3.StringVal(old)))):
                        out.append(u)
                        i += 1
                        continue
                    if count < 0:
                        # all occurrences: an uninterpreted text that lacks old
                        f = z3.Function(f"replace_all_{old}_{new}", STRLEN, STRLEN)
                        out.append(Atom(f(u.key), "opaque", no=u.no, lo=0))
                        i += 1
                        continue
                    if count - n == 1:
                        out.append(
                            Atom(z3.Replace(u.key, z3.StringVal(old), z3.StringVal(new)),
                                 "opaque", no="", lo=0))
                        n += 1
                        i += 1
                        continue
                unsupported("replace in an opaque piece")
            hit = True
            for k, ch in enumerate(old):
                if i + k >= len(us):
                    hit = False
                    break
                v = us[i + k]
                if isinstance(v, Atom):
                    if v.can(ch):
                        unsupported("replace across an opaque piece")
                    hit = False
                    break
                if not bool(SBool(_unit_eq(v, ch))):
                    hit = False
                    break
            if hit:
                out.extend(units_of(new))
                n += 1
                i += len(old)
            else:
                out.append(u)
                i += 1
        return mkstr(out)

    def lower(self):
        out = []
        for u in units_of(self):
            if isinstance(u, str):
                out.append(u.lower())
            elif isinstance(u, Dig):
                out.append(u)
            elif u.only is not None and u.only == u.only.lower():
                out.append(u)
            elif "lower" in (u.no or "") or u.kind != "opaque" or "ABC" in u.no:
                out.append(u)
            else:
                unsupported("lower of an opaque piece")
        return mkstr(out)

    def strip(self, chars=None, left=True, right=True):
        us = units_of(self)
        cs = " \t\n" if chars is None else chars
        if not isinstance(cs, str):
            unsupported("strip of symbolic characters")

        def drop(i):
            while us:
                u = us[i]
                if isinstance(u, str):
                    if u not in cs:
                        return
                    us.pop(i)
                elif isinstance(u, Atom):
                    if any(u.can(c) for c in cs):
                        unsupported("strip of an opaque piece")
                    if u.lo:
                        return
                    if not bool(SBool(u.key == z3.StringVal(""))):
                        return
                    us.pop(i)
                else:
                    if any(c.isdigit() for c in cs):
                        unsupported("strip of digits")
                    return

        if left:
            drop(0)
        if right:
            drop(-1)
        return mkstr(us)

    def lstrip(self, chars=None):
        return self.strip(chars, right=False)

    def rstrip(self, chars=None):
        return self.strip(chars, left=False)

    def count(self, sub):
        us = units_of(self)
        if not isinstance(sub, str) or len(sub) != 1:
            unsupported("count of a long substring")
        n = 0
        for u in us:
            if isinstance(u, Atom):
                if u.can(sub):
                    unsupported("count in an opaque piece")
            elif bool(SBool(_unit_eq(u, sub))):
                n += 1
        return n

    def isdigit(self):
        us = self._fixed()
        if us is None:
            unsupported("isdigit of an opaque string")
        return bool(us) and all(isinstance(u, Dig) or u.isdigit() for u in us)

    def join(self, xs):
        return join(self, xs)

    def encode(self, *a):
        unsupported("encode")

    def format(self, *a, **k):
        unsupported("format")


def _str_lt(x, y):
    a, b = units_of(x), units_of(y)
    while a and b:
        u, v = a[0], b[0]
        if isinstance(u, Atom) or isinstance(v, Atom):
            if (
                isinstance(u, Atom)
                and isinstance(v, Atom)
                and u.kind == v.kind
                and z3.eq(u.key, v.key)
            ):
                a.pop(0), b.pop(0)
                continue
            # the order of opaque text is not interpreted: some strict total order
            ka, kb = _okey(a), _okey(b)
            lt = z3.Function("text_lt", STRLEN, STRLEN, z3.BoolSort())
            if z3.eq(ka, kb):
                return False
            c = ctx()
            c.add(z3.Implies(lt(ka, kb), z3.Not(lt(kb, ka))))
            eq = zbool(str_eq(mkstr(a), mkstr(b)))
            c.add(z3.Implies(eq, z3.Not(z3.Or(lt(ka, kb), lt(kb, ka)))))
            c.add(z3.Implies(z3.Not(eq), z3.Or(lt(ka, kb), lt(kb, ka))))
            return SBool(lt(ka, kb))
        e = z3.simplify(_unit_eq(u, v))
        if z3.is_true(e) or (not z3.is_false(e) and bool(SBool(e))):
            a.pop(0), b.pop(0)
            continue
        cu = SNum(u.e) if isinstance(u, Dig) else u
        cv = SNum(v.e) if isinstance(v, Dig) else v
        if isinstance(cu, str) and isinstance(cv, str):
            return cu < cv
        if isinstance(cu, SNum) and isinstance(cv, SNum):
            return cu < cv
        if isinstance(cu, str):
            return (cv > int(cu)) if cu.isdigit() else cu < "0"
        return (cu < int(cv)) if cv.isdigit() else "9" < cv
    return bool(b)


def _okey(units):
    z = _z3str(units)
    if z is not None:
        return z
    parts = []
    for u in _pack(units):
        if isinstance(u, Atom) and u.kind != "opaque":
            parts.append(z3.Function("text_of_" + u.kind, u.key.sort(), STRLEN)(u.key))
        else:
            parts.append(_z3str([u] if not isinstance(u, str) else list(u)))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.extend(units_of(sep))
        if not isinstance(x, (str, SStr)):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        out.extend(units_of(x))
    return mkstr(out)


def num_str(x):
    """str() of a symbolic number, split by sign so that the '-' is a literal."""
    c = x.concrete()
    if c is not None:
        return str(c)
    if x.is_int:
        k = ctx()
        if k.sat(z3.Or(x.e < 0, x.e > 9)) == z3.unsat:
            return SStr([Dig(x.e)])
    if bool(x == 0):
        return "0"
    e = z3.ToReal(x.e) if x.is_int else x.e
    if bool(x < 0):
        return SStr(["-", Atom(z3.simplify(-e), "posrat", only="0123456789/", lo=1)])
    return SStr([Atom(z3.simplify(e), "posrat", only="0123456789/", lo=1)])


def to_str(x):
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, SNum):
        return num_str(x)
    if isinstance(x, SBool):
        return "True" if bool(x) else "False"
    if isinstance(x, (list, tuple, dict, set)) and _deep_sym(x):
        return _repr_deep(x)
    m = type(x).__str__
    r = m(x) if getattr(type(x), "__vx_str__", None) is None else x.__vx_str__()
    return r


def _deep_sym(x, d=0):
    if is_sym(x) or isinstance(x, RepList) or hasattr(type(x), "_vx__"):
        return True
    if d > 4:
        return False
    if isinstance(x, dict):
        return any(_deep_sym(k, d + 1) or _deep_sym(v, d + 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set)):
        return any(_deep_sym(v, d + 1) for v in x)
    return False


def str_repr(x):
    """repr of text whose opaque pieces need no escapes."""
    us = units_of(x)
    lit = [u for u in us if isinstance(u, str)]
    for u in us:
        if isinstance(u, Atom) and u.kind == "opaque" and any(u.can(ch) for ch in "'\\\n"):
            unsupported("repr of an opaque piece that may need escapes")
    q = '"' if "'" in lit and '"' not in lit else "'"
    out = [q]
    for u in us:
        if isinstance(u, str):
            e = "\\'" if u == "'" and q == "'" else repr(u)[1:-1]
            out.extend(e if u != '"' else u)
        else:
            out.append(u)
    return mkstr(out + [q])


def _repr_deep(x):
    if isinstance(x, SNum):
        return num_str(x)
    if isinstance(x, SStr):
        return str_repr(x)
    if isinstance(x, SBool):
        return "True" if bool(x) else "False"
    if isinstance(x, dict):
        return "{" + join(", ", [_repr_deep(k) + ": " + _repr_deep(v) for k, v in x.items()]) + "}"
    if isinstance(x, list):
        return "[" + join(", ", [_repr_deep(v) for v in x]) + "]"
    if isinstance(x, tuple):
        return "(" + join(", ", [_repr_deep(v) for v in x]) + ("," if len(x) == 1 else "") + ")"
    if type(x).__module__.startswith(("neutrinomass", "vx")):
        return type(x).__repr__(x)
    return repr(x)


def to_int(x, *a):
    if a:
        return int(x, *a)
    if isinstance(x, SNum):
        if x.is_int:
            return x
        # truncation toward zero
        e = x.e
        return SNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, SStr):
        us = x._fixed()
        if us is None:
            unsupported("int() of an opaque string")
        neg = False
        if us and us[0] == "-":
            neg, us = True, us[1:]
        if not us or any(isinstance(u, str) and not u.isdigit() for u in us):
            raise ValueError("invalid literal for int()")
        v = SNum(z3.IntVal(0))
        for u in us:
            v = v * 10 + (SNum(u.e) if isinstance(u, Dig) else int(u))
        return -v if neg else v
    return int(x)


def _same(self, memo=None):
    """Symbolic values are immutable: a copy is the thing itself."""
    return self


for _c in (SBool, SNum, SStr, Dig, Atom):
    _c.__copy__ = _c.__deepcopy__ = _same
