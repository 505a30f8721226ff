"""Invariants for loops that are cut, and the mutable containers they run on.

A contract installs specifications with ``g.loop(Loop(...))``.  A `for` over a
SymSeq (unbounded), or a `while` for which a specification is installed, is then
not unrolled; see seq.py for the rule.  What the body changes is found in the
source (transform.Mutated); each changed variable that exists before the loop
needs a rule, whatever its name: rules are matched by kind.  If they cannot be,
the path is undecided (never a violation).
"""

import z3

from vx import core, seq
from vx.core import SBool, SNum, ctx, unsupported, zbool, znum
from vx.seq import SymSeq, UNBOUND


def same(a, b):
    if a is b:
        return True
    from vx.runtime import veq

    return veq(a, b)


class Choice:
    """Which of several possible assignments of invariants to variables."""

    def __init__(self):
        self.reset()

    def reset(self, n=0):
        self.n, self.radix = n, {}

    def index(self, key, count):
        d = 1
        for k, c in self.radix.items():
            if k == key:
                break
            d *= c
        self.radix.setdefault(key, count)
        return self.n // d % self.radix[key] % count

    def total(self):
        d = 1
        for c in self.radix.values():
            d *= c
        return min(d, 24)


PERM = Choice()


class Poison:
    """A variable whose value the invariant does not speak of."""

    _vx__ = True

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def __getattribute__(self, a):
        if a.startswith("__") and a not in ("__iter__", "__len__", "__bool__"):
            return object.__getattribute__(self, a)
        unsupported(f"use of {object.__getattribute__(self, '_n')} after a cut loop")

    def __bool__(self):
        unsupported("truth of a havocked variable")

    def __iter__(self):
        unsupported("iteration over a havocked variable")


class Rule:
    def fits(self, v):
        return False


class AppendList:
    """A list known only as ``base so far``; the body may append to it."""

    _vx__ = True

    def __init__(self):
        self.new = []

    def append(self, x):
        self.new.append(x)

    def extend(self, xs):
        if isinstance(xs, SymSeq):
            unsupported("extend by an unbounded sequence")
        self.new.extend(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __getattr__(self, a):
        unsupported(f"list.{a} in a cut loop")

    def __iter__(self):
        unsupported("iteration over a list that is being built")

    def __len__(self):
        unsupported("len of a list that is being built")

    def __bool__(self):
        unsupported("truth of a list that is being built")


class Collect(Rule):
    """A list to which element k contributes [f(k)] if p(k), else nothing."""

    def __init__(self, f, p=None):
        self.f, self.p = f, p

    def fits(self, v):
        return isinstance(v, list)

    def entry(self, g, label, v):
        g.ensure(label + ": empty at first", len(v) == 0)

    def havoc(self, loop, v, k, final):
        if final:
            return SymSeq(loop.it.n, self.f, "collected", filt=self.p)
        return AppendList()

    def preserved(self, g, label, loop, before, v):
        if not isinstance(v, AppendList):
            unsupported("list replaced in a cut loop")
        want = [self.f(loop.k)] if self.p is None or bool(self.p(loop.k)) else []
        ok = len(want) == len(v.new) and all(bool(same(a, b)) for a, b in zip(v.new, want))
        g.ensure(label, ok)


class Fold(Rule):
    """A number combined with every element: acc -> step(acc, k)."""

    def __init__(self, name, init, step, sort="int"):
        self.name, self.init, self.step = name, init, step
        self.sort = {"int": core.INT, "real": core.REAL}[sort]
        self.F = z3.Function("FOLD_" + name, core.INT, self.sort)

    def at(self, k):
        return SNum(self.F(znum(k)))

    def fits(self, v):
        return core._isnum(v) and not isinstance(v, bool)

    def entry(self, g, label, v):
        g.ensure(label + ": start", v == self.init)

    def havoc(self, loop, v, k, final):
        return self.at(k)

    def preserved(self, g, label, loop, before, v):
        g.ensure(label, v == self.step(self.at(loop.k), loop.k))


class Values(Rule):
    """A variable of a given kind with a relational invariant inv(k, v)."""

    def __init__(self, make, inv=lambda k, v: True, kind=object):
        self.make, self.inv, self.kind = make, inv, kind

    def fits(self, v):
        return isinstance(v, self.kind)

    def entry(self, g, label, v):
        g.ensure(label + ": start", self.inv(0, v))

    def havoc(self, loop, v, k, final):
        v = self.make(k)
        c = self.inv(k, v)
        if isinstance(c, SBool):
            ctx().assume(c.e)
        elif not c:
            core.stop(core.PathDone("invariant"))
        return v

    def preserved(self, g, label, loop, before, v):
        g.ensure(label, self.inv(loop.k + 1, v))


class Free(Rule):
    """An object the contract gives up on: changed freely, and not used after."""

    optional = True

    def __init__(self, *objs):
        self.objs = objs

    def fits(self, v):
        return any(v is o for o in self.objs)

    def entry(self, g, label, v):
        pass

    def havoc(self, loop, v, k, final):
        return v

    def preserved(self, g, label, loop, before, v):
        if not self.fits(v):
            unsupported("object replaced in a cut loop")


class Loop:
    """Specification of for-loops over unbounded sequences in functions whose
    dotted site ends with ``where``."""

    def __init__(self, where, *rules, over=None, fact=None, depth=None, **named):
        self.where, self.rules, self.named, self.over = where, [r for r in rules if r], named, over
        self.depth = depth  # how many cut loops it is inside of
        self.fact = fact  # fact(k): what is known of the first k elements

    def matches(self, loop, entry):
        return loop.site.endswith(self.where) and (self.over is None or loop.it is self.over) and self.depth in (None, len(seq.ACTIVE))

    def assign(self, entry):
        """variable -> rule, or None for one that starts unbound.

        Names do not matter: where several assignments fit, PERM says which
        one to try (the contract holds if one of them is an invariant)."""
        names, out = [], {}
        for n, v in entry.items():
            if v is UNBOUND or isinstance(v, Poison):
                out[n] = None
            elif n in self.named and self.named[n].fits(v):
                out[n] = self.named[n]
            else:
                names.append(n)
        found = []

        def go(i, left, m):
            if len(found) >= 24:
                return
            if i == len(names):
                if all(getattr(r, "optional", False) for r in left):
                    found.append(dict(m))
                return
            for r in left:
                if r.fits(entry[names[i]]):
                    m[names[i]] = r
                    go(i + 1, [x for x in left if x is not r], m)
                    del m[names[i]]

        go(0, list(self.rules), {})
        if not found:
            unsupported(f"no invariant for {', '.join(names) or 'the loop'} in {self.where}")
        out.update(found[PERM.index(self.where, len(found))])
        return {n: out[n] for n in entry}

    def entry(self, loop, env):
        if getattr(self, "g", None) is None:
            unsupported("loop specification without a contract")
        self.map = self.assign(env)
        if self.fact:
            self.g.ensure(f"loop of {self.where.split('.')[-1]}: fact at first", self.fact(SNum(z3.IntVal(0))))
        for n, r in self.map.items():
            if r:
                r.entry(self.g, f"loop of {self.where.split('.')[-1]}", env[n])

    def havoc(self, loop, env, k):
        final = getattr(loop, "exit_mode", False)
        out = {}
        for n, r in self.map.items():
            out[n] = r.havoc(loop, env[n], k, final) if r else Poison(n)
        if self.fact:
            ctx().assume(zbool(self.fact(k)))
        self.before = dict(out)
        return out

    def preserved(self, loop, env, k):
        if self.fact:
            self.g.ensure(f"loop of {self.where.split('.')[-1]}: fact", self.fact(k))
        for n, r in self.map.items():
            if r:
                r.preserved(self.g, f"loop of {self.where.split('.')[-1]}", loop, self.before[n], env[n])


# ---------------------------------------------------------------------------------
# while loops, with mutable unbounded containers

WHILES = []


class While:
    """inv(env) -> list of conditions on the variables (a dict by name);
    havoc(env) -> new values of the changed ones; variant(env) -> SNum."""

    def __init__(self, where, order, havoc, inv, variant=None):
        self.where, self.order = where, order
        self.havoc_, self.inv, self.variant = havoc, inv, variant


class WhileState:
    def __init__(self, site, order):
        self.spec = None
        for s in WHILES:
            if site.endswith(s.where) and s.order == order:
                self.spec = s
        self.active = self.spec is not None
        self.phase = 0

    def go(self, names, getters):
        """Before each test; True to go on with the iteration's first part."""
        if not self.active:
            return True
        s = self.spec
        self.names = names
        if self.phase == 0:
            env = self.env(getters)
            label = f"while of {s.where.split('.')[-1]}#{s.order}"
            self.label = label
            self.check(label + ": invariant at first", env)
            self.mode = ctx().choose(2)
            self.phase = 1
            return True
        env = self.env(getters)
        self.check(self.label + ": invariant kept", env)
        if s.variant is not None:
            v = s.variant(env)
            s.g.ensure(self.label + ": variant decreases", (v < self.v0) & (v >= 0) if isinstance(v < self.v0, SBool) else (v < self.v0 and v >= 0))
        core.stop(core.PathDone("loop body"))

    def check(self, label, env):
        try:
            conds = self.spec.inv(env)
        except (KeyError, AttributeError, TypeError) as e:
            unsupported(f"invariant does not fit the variables: {e!r}")
        for c in conds:
            self.spec.g.ensure(label, c)

    def env(self, getters):
        out = {}
        for n, f in getters.items():
            try:
                out[n] = f()
            except (NameError, AttributeError, KeyError):
                out[n] = UNBOUND
        return out

    def head(self, names, getters):
        env = self.env(getters)
        try:
            new = self.spec.havoc_(env)
        except (KeyError, AttributeError, TypeError) as e:
            unsupported(f"havoc does not fit the variables: {e!r}")
        for n in names:
            if n not in new:
                if env[n] is UNBOUND or isinstance(env[n], Poison):
                    new[n] = Poison(n)
                else:
                    unsupported(f"no invariant for {n} in {self.spec.where}")
        env = {**env, **new}
        for c in self.spec.inv(env):
            ctx().add(zbool(c))
        if ctx().sat() == z3.unsat:
            core.stop(core.PathDone("invariant"))
        if self.spec.variant is not None and self.mode == 0:
            self.v0 = self.spec.variant(env)
        return tuple(new[n] for n in names)

    def leave(self):
        """The test failed."""
        if self.active and self.mode == 0:
            core.stop(core.PathDone("exit, seen by the other path"))

    def enter(self):
        if self.active and self.mode == 1:
            core.stop(core.PathDone("body, seen by the other path"))


class SymList:
    """A mutable list of unbounded length: n elements, the k-th wrap(arr[k])."""

    _vx__ = True

    def __init__(self, n, arr, wrap, unwrap):
        self.n, self.arr, self.wrap, self.unwrap = n, arr, wrap, unwrap
        self.ghost = {}

    def vx_len(self):
        return self.n

    def __len__(self):
        unsupported("native len of an unbounded list")

    def sel(self, k):
        return z3.simplify(z3.Select(self.arr, znum(k)))

    def _idx(self, i):
        if isinstance(i, int) and i < 0:
            i = self.n + i
        i = i if isinstance(i, SNum) else SNum(z3.IntVal(i))
        if not bool((i >= 0) & (i < self.n)):
            raise IndexError("list index out of range")
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            unsupported("slice of an unbounded list")
        i = self._idx(i)
        return self.wrap(z3.Select(self.arr, i.e))

    def __setitem__(self, i, v):
        i = self._idx(i)
        self.arr = z3.Store(self.arr, i.e, self.unwrap(v))

    def append(self, v):
        self.arr = z3.Store(self.arr, self.n.e, self.unwrap(v))
        self.n = self.n + 1

    def pop(self, i=-1):
        i = self._idx(i)
        out = self.wrap(z3.Select(self.arr, i.e))
        x = z3.Int("popk")
        old = self.arr
        self.arr = z3.Lambda([x], z3.If(x < i.e, z3.Select(old, x), z3.Select(old, x + 1)))
        self.n = self.n - 1
        for h in self.ghost.values():
            h(i)
        return out

    def __delitem__(self, i):
        self.pop(i)

    def __iter__(self):
        unsupported("iteration over an unbounded list")

    def __bool__(self):
        return bool(self.n > 0)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        unsupported(f"list.{a} on an unbounded list")


class SymSet:
    """A mutable set of integers (or of objects that stand for one: vx_int)."""

    _vx__ = True

    def __init__(self, arr):
        self.arr = arr

    def vx_contains(self, x):
        return bool(SBool(z3.Select(self.arr, znum(getattr(x, "vx_int", x)))))

    def has(self, e):
        return z3.Select(self.arr, znum(e))

    def add(self, x):
        self.arr = z3.Store(self.arr, znum(getattr(x, "vx_int", x)), z3.BoolVal(True))

    def __bool__(self):
        unsupported("truth of an unbounded set")

    def __iter__(self):
        unsupported("iteration over an unbounded set")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        unsupported(f"set.{a} on an unbounded set")
