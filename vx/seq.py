"""Sequences of unbounded length, and the cut of loops over them.

A SymSeq has a symbolic length n >= 0 and a rule giving its k-th element for a
symbolic k.  A loop over one is not unrolled: the loop rule is applied.
  enter     : the invariant holds of the state before the loop, at k = 0
  arbitrary : havoc what the body changes, assume the invariant at k, run the
              body on element k, show the invariant at k + 1
  exit      : havoc what the body changes, assume the invariant at n
The path explorer explores 'arbitrary' and 'exit' as two paths.
"""

import z3

from vx import core
from vx.core import SBool, SNum, ctx, unsupported, zbool

_uid = [0]


class SymSeq:
    """Unbounded sequence.  elem(k) must be a pure function of the SNum k."""

    def __init__(self, n, elem, name="seq", filt=None, kind=list, distinct=None):
        self.n, self.elem, self.name, self.filt = n, elem, name, filt
        self.kind = kind
        self._cache = {}

    def at(self, k):
        key = z3.simplify(core.znum(k)).sexpr()
        if key not in self._cache:
            self._cache[key] = self.elem(k if isinstance(k, SNum) else SNum(core.znum(k)))
        return self._cache[key]

    def vx_len(self):
        if self.filt is not None:
            unsupported("length of a filtered sequence")
        return self.n

    def map(self, f, filt=None):
        base = self

        def pred(k):
            if base.filt is not None and not bool(base.filt(k)):
                return False
            return filt(base.at(k))

        return SymSeq(
            self.n,
            lambda k: f(base.at(k)),
            self.name + "'",
            pred if filt is not None else self.filt,
        )

    def __iter__(self):
        c = ctx()
        if z3.is_true(z3.simplify(self.n.e == 0)):
            return iter(())
        unsupported(f"native iteration over the unbounded sequence {self.name}")

    def __len__(self):
        unsupported(f"native len of the unbounded sequence {self.name}")

    def __bool__(self):
        if self.filt is not None:
            unsupported("truth of a filtered sequence")
        return bool(self.n > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step in (None, 1) and i.stop is None and isinstance(i.start, int) and i.start >= 0:
                if bool(self.n >= i.start):
                    return SymSeq(self.n - i.start, lambda k: self.at(k + i.start), self.name + f"[{i.start}:]")
                return SymSeq(SNum(z3.IntVal(0)), self.elem, self.name)
            unsupported("slice of an unbounded sequence")
        if self.filt is not None:
            unsupported("index into a filtered sequence")
        if isinstance(i, int) and i < 0:
            i = self.n + i
        i = i if isinstance(i, SNum) else SNum(z3.IntVal(i))
        if not bool((i >= 0) & (i < self.n)):
            raise IndexError("list index out of range")
        return self.at(i)

    def items(self):
        return self

    def __repr__(self):
        return f"SymSeq({self.name})"


def arbitrary_index(seq, hint="k"):
    """A fresh index of an element that passes the filter, or the path ends."""
    c = ctx()
    k = SNum(c.fresh(core.INT, hint))
    c.assume(z3.And(k.e >= 0, k.e < seq.n.e))
    if seq.filt is not None and not bool(seq.filt(k)):
        core.stop(core.PathDone("filtered out"))
    return k


def merge(fn, sort):
    """Value of fn() as one z3 term, over all its internal branches.

    fn runs in a sub-exploration whose branches are kept apart from the path's.
    """
    outer = ctx()
    results = []
    stack = [[]]
    while stack:
        prefix = stack.pop()
        sub = core.Ctx(prefix, _SubEx(outer.ex, stack))
        for e in outer.pc:
            sub.solver.add(e)
        sub.fresh_n = outer.fresh_n + 100000
        sub.names, sub.inputs = outer.names, outer.inputs
        core.CTX = sub
        try:
            v = fn()
            cond = z3.And(sub.pc) if sub.pc else z3.BoolVal(True)
            v = zbool(v) if sort == z3.BoolSort() else core.znum(v)
            if sort == core.REAL and v.sort() == core.INT:
                v = z3.ToReal(v)
            results.append((cond, v))
        except core.PathDone:
            continue
        finally:
            core.CTX = outer
        if len(results) > 256:
            unsupported("merge: too many paths")
    if not results:
        unsupported("merge: no path")
    out = results[-1][1]
    for cond, v in reversed(results[:-1]):
        out = z3.If(cond, v, out)
    return z3.simplify(out)


class _SubEx:
    def __init__(self, ex, stack):
        self.ex, self.stack = ex, stack
        self.timeout_ms = ex.timeout_ms

    def push(self, prefix):
        self.stack.append(prefix)

    def tick(self):
        self.ex.tick()

    @property
    def solver_s(self):
        return self.ex.solver_s

    @solver_s.setter
    def solver_s(self, v):
        self.ex.solver_s = v

    @property
    def queries(self):
        return self.ex.queries

    @queries.setter
    def queries(self, v):
        self.ex.queries = v


SUM_R = z3.Function("SUM_real", z3.ArraySort(core.INT, core.REAL), core.INT, core.REAL)
SUM_I = z3.Function("SUM_int", z3.ArraySort(core.INT, core.INT), core.INT, core.INT)


def linear(e):
    """A sum of terms with constant coefficients: [(coefficient, term or None)].

    Sums are linear, so sum(a + 2*b) and sum(a) + 2*sum(b) become the same."""
    e = z3.simplify(e, som=True)
    parts = {}

    def add(coef, t):
        key = None if t is None else t.sexpr()
        old = parts.get(key, (z3.RealVal(0), t))[0]
        parts[key] = (z3.simplify(old + coef), t)

    def go(coef, t):
        if z3.is_to_real(t) and (z3.is_add(t.arg(0)) or z3.is_mul(t.arg(0)) or z3.is_int_value(t.arg(0))):
            a = t.arg(0)
            if z3.is_int_value(a):
                return add(coef * z3.ToReal(a), None)
            if z3.is_add(a):
                for x in a.children():
                    go(coef, z3.ToReal(x))
                return
            if a.num_args() == 2 and z3.is_int_value(a.arg(0)):
                return go(coef * z3.ToReal(a.arg(0)), z3.ToReal(a.arg(1)))
            return add(coef, t)
        if z3.is_add(t):
            for x in t.children():
                go(coef, x)
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            go(coef * t.arg(0), t.arg(1))
        elif z3.is_rational_value(t):
            add(coef * t, None)
        else:
            add(coef, t)

    go(z3.RealVal(1), e)
    return [(c, t) for c, t in parts.values() if not z3.is_true(z3.simplify(c == 0))]


def fold_sum(seq, start=0):
    """sum() over an unbounded sequence: an uninterpreted sum of the elementwise
    term, with the step and base equations instantiated where they are used."""
    c = ctx()
    k = z3.Int(f"bk!{_uid[0]}")
    _uid[0] += 1
    probe = SNum(k)

    def val():
        if seq.filt is not None and not bool(seq.filt(probe)):
            return 0
        return seq.elem(probe)

    outer_pc = len(c.pc)
    c.solver.push()
    c.solver.add(k >= 0, k < seq.n.e)
    try:
        e = merge(val, core.REAL)
    finally:
        c.solver.pop()
    s = SNum(z3.RealVal(0))
    for coef, t in linear(e):
        if t is None:
            s = s + SNum(coef * z3.ToReal(seq.n.e))
            continue
        if z3.is_to_real(t):  # a sum of whole numbers is one
            S = z3.ToReal(SUM_I(z3.Lambda([k], t.arg(0)), seq.n.e))
        else:
            S = SUM_R(z3.Lambda([k], t), seq.n.e)
        c.add(z3.Implies(seq.n.e <= 0, S == 0))
        s = s + SNum(coef * S)
    return s + start if not (isinstance(start, int) and start == 0) else s


def quant(seq, universal):
    """all() / any() over an unbounded sequence of truth values."""
    c = ctx()
    k = z3.Int(f"bq!{_uid[0]}")
    _uid[0] += 1
    probe = SNum(k)

    def val():
        if seq.filt is not None and not bool(seq.filt(probe)):
            return universal
        v = seq.elem(probe)
        return v if isinstance(v, (bool, SBool)) else bool(v)

    c.solver.push()
    c.solver.add(k >= 0, k < seq.n.e)
    try:
        e = merge(val, z3.BoolSort())
    finally:
        c.solver.pop()
    rng = z3.And(k >= 0, k < seq.n.e)
    if universal:
        return SBool(z3.ForAll([k], z3.Implies(rng, e)))
    return SBool(z3.Exists([k], z3.And(rng, e)))


# ---------------------------------------------------------------------------------
# loops

UNBOUND = type("Unbound", (), {"__repr__": lambda s: "<unbound>"})()

# site-independent: contracts install the invariant they need, see harness.loop
LOOPS = []
ACTIVE = []  # the loops whose arbitrary iteration this path is in


class LoopState:
    """Runtime object behind ``for T in <iter>`` in instrumented code."""

    def __init__(self, it, site):
        self.site = site
        self.sym = isinstance(it, SymSeq) and not z3.is_true(z3.simplify(it.n.e == 0))
        self.it = it
        self.active = self.sym
        self.phase = 0
        self.getters = None
        self.spec = None

    def __iter__(self):
        if not self.sym:
            return iter(self.it)
        return self

    def __next__(self):
        c = ctx()
        if self.phase == 0:
            which = c.choose(2)
            self.phase = 1
            if which == 1:
                self.phase = 3
                self.exit_mode = True
                raise StopIteration
            self.exit_mode = False
            self.k = arbitrary_index(self.it)
            return self.it.at(self.k)
        if self.phase == 1:
            # body completed: invariant must hold at k+1
            env = self.env()
            self.spec.preserved(self, env, SNum(z3.simplify(self.k.e + 1)))
            core.stop(core.PathDone("loop body"))
        raise StopIteration

    def env(self):
        out = {}
        for name, g in self.getters.items():
            try:
                out[name] = g()
            except (NameError, AttributeError, KeyError):
                out[name] = UNBOUND
        return out

    def head(self, names, getters):
        """First statement of the body: returns havocked values of ``names``."""
        if self.phase != 1 or self.getters is not None:
            unsupported("loop re-entered")
        self.getters = getters
        entry = self.env()
        self.spec = find_spec(self, entry)
        self.spec.entry(self, entry)
        ACTIVE.append(self)
        env = self.spec.havoc(self, entry, self.k)
        return tuple(env[n] for n in names)

    def exit(self, names, getters):
        if not (self.sym and getattr(self, "exit_mode", False)):
            unsupported("loop exit")
        self.getters = getters
        entry = self.env()
        self.spec = find_spec(self, entry)
        self.spec.entry(self, entry)
        env = self.spec.havoc(self, entry, self.it.n)
        return tuple(env[n] for n in names)


def find_spec(loop, entry):
    for spec in LOOPS:
        if spec.matches(loop, entry):
            return spec
    unsupported(f"loop over an unbounded sequence without an invariant: {loop.site}")
