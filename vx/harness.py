"""Contracts, and how one is decided.

A contract is a Python function of a generator ``g``: it makes inputs with
``g``, calls real functions of /repo, and states postconditions with
``g.ensure``.  The same text is run
  - symbolically on the instrumented code (every input free): verification
    conditions, decided by z3, for all inputs;
  - concretely on the untouched code: replay of counterexamples, and a bounded
    run-time check of the contract on many inputs.
"""

import builtins
import random
import string
import time
import traceback
from fractions import Fraction

import z3

from vx import core, repo, runtime
from vx.core import SBool, SNum, SStr, Atom, Dig, znum, zbool

REGISTRY = {}
PATCHES = []


def unpatch():
    while PATCHES:
        mod, n, v = PATCHES.pop()
        if v is PATCHES:
            delattr(mod, n)
        else:
            setattr(mod, n, v)



class Contract:
    def __init__(self, prop, fn, name, covers, mode, runs, secs, gsecs, opts):
        self.prop, self.fn, self.name, self.covers = prop, fn, name, covers
        self.mode, self.runs, self.secs, self.gsecs, self.opts = mode, runs, secs, gsecs, opts


def contract(prop, covers=(), mode="both", runs=300, secs=40, gsecs=20, **opts):
    """mode: 'both' (proof, plus run-time check), 'sym', or 'conc' (bounded only)."""

    def deco(fn):
        c = Contract(prop, fn, f"{fn.__module__.split('.')[-1]}.{fn.__name__}", tuple(covers), mode, runs, secs, gsecs, opts)
        REGISTRY.setdefault(prop, []).append(c)
        return fn

    return deco


class Violation(Exception):
    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}" if detail else label)
        self.label, self.detail = label, detail


class Skip(Exception):
    """Concrete input outside the precondition."""


class Base:
    thorough = False

    def mod(self, name):
        return self.world.mod(name)

    def fn(self, dotted):
        m, _, n = dotted.rpartition(".")
        return getattr(self.mod(m), n)

    def callee(self, dotted, fn):
        """The function is replaced by fn, which states its contract."""
        m, _, n = dotted.rpartition(".")
        mod = self.mod(m)
        if not hasattr(mod, n) and not hasattr(builtins, n):
            raise AttributeError(dotted)
        PATCHES.append((mod, n, vars(mod).get(n, PATCHES)))
        setattr(mod, n, fn)

    def all(self, xs):
        """Conjunction without forking."""
        conds, ok = [], True
        for x in xs:
            if isinstance(x, SBool):
                conds.append(x.e)
            elif not x:
                return False
        return SBool(z3.And(conds)) if conds else ok

    def any(self, xs):
        conds = []
        for x in xs:
            if isinstance(x, SBool):
                conds.append(x.e)
            elif x:
                return True
        return SBool(z3.Or(conds)) if conds else False

    def neg(self, x):
        return ~x if isinstance(x, SBool) else not x

    def implies(self, a, b):
        return self.any([self.neg(a), b])

    def str(self, x):
        return core.to_str(x) if self.symbolic else str(x)

    def join(self, sep, xs):
        return core.join(sep, list(xs)) if self.symbolic else sep.join(xs)

    def hash(self, x):
        return runtime.vhash(x) if self.symbolic else hash(x)

    def same(self, label, f, x, y):
        """f gives equal results on x and y"""
        self.ensure(label, self.eq(f(x), f(y)))

    def iff(self, a, b):
        if isinstance(a, SBool) or isinstance(b, SBool):
            return SBool(zbool(a) == zbool(b))
        return bool(a) == bool(b)

    def eq(self, a, b):
        """Structural equality, as one condition."""
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            out = []
            for k in a:
                if k not in b:
                    return False
                out.append(self.eq(a[k], b[k]))
            return self.all(out)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all([self.eq(x, y) for x, y in zip(a, b)])
        return a == b

    def expect(self, label, excs, fn, *a, **k):
        """fn must raise one of excs."""
        try:
            fn(*a, **k)
        except excs:
            self.ensure(label, True)
            return
        except Exception as e:
            self.ensure(label + f" (raised {type(e).__name__})", False)
            return
        self.ensure(label + " (did not raise)", False)


class Sym(Base):
    symbolic = True

    def __init__(self, c, rec, thorough=False, world=True):
        self.c, self.rec = c, rec
        self.world = repo.world(world)
        self.thorough = thorough

    # inputs
    def _reg(self, name, v):
        if name in self.c.inputs:
            raise RuntimeError(f"input {name} twice")
        self.c.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        cs = []
        if lo is not None:
            cs.append(e >= lo)
        if hi is not None:
            cs.append(e <= hi)
        for x in cs:
            self.c.add(x)
        return self._reg(name, SNum(e))

    def digit(self, name, hi=9):
        """A one-character string holding a digit."""
        v = self.int(name, 0, hi)
        return SStr([Dig(v.e)])

    def real(self, name):
        return self._reg(name, SNum(z3.Real(name)))

    def bool(self, name):
        return self._reg(name, SBool(z3.Bool(name)))

    def text(self, name, no="", lo=0, only=None, alphabet=None):
        e = z3.String(name)
        if lo:
            self.c.add(z3.Length(e) >= lo)
        if only is None:
            for ch in no:
                self.c.add(z3.Not(z3.Contains(e, z3.StringVal(ch))))
        else:
            self.c.add(z3.InRe(e, z3.Star(z3.Union(*[z3.Re(ch) for ch in only]) if len(only) > 1 else z3.Re(only))))
        v = SStr([Atom(e, "opaque", no=no, lo=lo, only=only)])
        return self._reg(name, v)

    def pick(self, name, options, quick=None):
        """One of options (of the first `quick` ones unless thorough)."""
        options = list(options)
        if quick and not self.thorough:
            options = options[:quick]
        i = self.c.choose(len(options))
        self._reg(name, i)
        return options[i]

    # sequences of any length, and loops over them
    def seq(self, name, make, lo=0, hi=6):
        """A sequence of any length, its k-th element make(k)."""
        from vx.seq import SymSeq

        return SymSeq(self.int(name + "_len", lo), make, name)

    def ufun(self, name, kind="int", lo=None, hi=None):
        """An arbitrary function of an index."""
        sort = {"int": core.INT, "real": core.REAL, "bool": z3.BoolSort()}[kind]
        F = z3.Function(name, core.INT, sort)
        self._reg(name, UFun(F, kind))

        def f(k):
            e = F(core.znum(k))
            if kind == "bool":
                return SBool(e)
            for b, op in ((lo, "__ge__"), (hi, "__le__")):
                if b is not None:
                    self.c.add(getattr(e, op)(b))
            return SNum(e)

        return f

    def fold(self, name, init, step, over, sort="int"):
        from vx.loops import Fold

        r = Fold(name, init, lambda acc, k: step(acc, over.at(k)), sort)
        self.c.add((r.at(0) == init).e)
        r.total = lambda: r.at(over.n)
        return r

    def loop(self, where, *rules, **kw):
        from vx import loops, seq

        s = loops.Loop(where, *rules, **kw)
        s.g = self
        seq.LOOPS.append(s)

    def read(self, text, mod):
        """eval(text) among the names of a module, with symbolic pieces."""
        from vx.runtime import evaluate

        return evaluate(text, vars(self.mod(mod)), world=self.world.sym)

    def lemma(self, name, base, step, k0=0):
        """base() at k0, and step(k) assuming fact; a fact about all k >= k0 by
        induction.  base/step: conditions; returns nothing, obligations are made."""
        self.ensure(f"lemma {name}: base", base)
        self.ensure(f"lemma {name}: step", step)

    def whiles(self, where, order, havoc, inv, variant=None):
        from vx import loops

        s = loops.While(where, order, havoc, inv, variant)
        s.g = self
        loops.WHILES.append(s)

    def outer(self, depth=0):
        """The iteration of an enclosing cut loop."""
        from vx import seq

        return seq.ACTIVE[depth].k

    def free(self, *objs):
        from vx.loops import Free

        return Free(*objs)

    def collect(self, f, p=None):
        from vx.loops import Collect

        return Collect(f, p)

    def each(self, label, got, over, f=lambda x: x, p=None):
        """got is [f(x) for x in over if p(x)]."""
        from vx.seq import SymSeq, arbitrary_index
        from vx.loops import same

        if not isinstance(got, SymSeq):
            if not isinstance(over, SymSeq):
                want = [f(x) for x in over if p is None or bool(p(x))]
                self.ensure(label, len(want) == len(got) and all(bool(same(a, b)) for a, b in zip(got, want)))
                return
            if len(got) == 0:
                if p is None:
                    self.ensure(label, over.n == 0)
                    return
                if bool(over.n == 0):
                    self.ensure(label, True)
                    return
                k = arbitrary_index(over)
                self.ensure(label, self.neg(p(over.at(k))))
                return
            core.unsupported("a list compared with an unbounded sequence")
        self.ensure(label + ": as long", got.n == over.n)
        if bool(over.n == 0):
            return
        k = arbitrary_index(over)
        x = over.at(k)
        there = True if got.filt is None else bool(got.filt(k))
        want = True if p is None else bool(p(x))
        self.ensure(label + ": there", there == want)
        if there and want:
            self.ensure(label, same(got.at(k), f(x)))

    # conditions
    def assume(self, cond):
        if isinstance(cond, SBool):
            self.c.assume(cond.e)
        elif not cond:
            core.stop(core.PathDone("assume"))

    def cover(self, label):
        self.rec.covers[label] = self.rec.covers.get(label, 0) + 1

    def ensure(self, label, cond):
        self.rec.reached.add(label)
        if not isinstance(cond, (SBool, bool)):
            if isinstance(cond, SNum):
                cond = cond != 0
            else:
                cond = bool(cond)
        e = z3.simplify(zbool(cond))
        t = time.time()
        if z3.is_true(e):
            self.rec.add(core.Obligation(label, "discharged", None, 0.0, note="trivial"))
            return
        r = self.c.decide(z3.Not(e))
        dt = time.time() - t
        if r == z3.unsat:
            self.rec.add(core.Obligation(label, "discharged", None, dt))
            if self.rec.cross and self.rec.cross_n < self.rec.cross:
                self.rec.cross_check(self.c, z3.Not(e), label)
        elif r == z3.sat:
            m = self.c.solver.model()
            self.rec.add(core.Obligation(label, "refuted", self.values(m), dt,
                                         note="sum" if "SUM_" in e.sexpr() else ""))
            self.c.assume(e)
        else:
            self.rec.add(core.Obligation(label, "unknown", None, dt, note=self.c.solver.reason_unknown()))
            self.c.add(e)

    def values(self, m):
        out = {}
        for k, v in self.c.inputs.items():
            try:
                out[k] = self._val(m, v)
            except Exception as ex:  # pragma: no cover
                out[k] = {"error": repr(ex)}
        return out

    def _val(self, m, v):
        if isinstance(v, SNum):
            r = m.eval(v.e, model_completion=True)
            if z3.is_int_value(r):
                return {"int": r.as_long()}
            if z3.is_algebraic_value(r):
                r = r.approx(10)
            f = r.as_fraction()
            return {"rat": [f.numerator, f.denominator]}
        if isinstance(v, SBool):
            return {"bool": z3.is_true(m.eval(v.e, model_completion=True))}
        if isinstance(v, SStr):
            u = v.pieces[0]
            r = m.eval(u.key, model_completion=True)
            return {"str": _unescape(r.as_string())}
        if isinstance(v, UFun):
            out = {}
            for k in range(24):
                r = m.eval(v.F(k), model_completion=True)
                if v.kind == "bool":
                    out[str(k)] = z3.is_true(r)
                else:
                    r = r.as_fraction()
                    out[str(k)] = [r.numerator, r.denominator]
            return {"fun": out}
        return {"pick": v}


class UFun:
    def __init__(self, F, kind):
        self.F, self.kind = F, kind


def _unescape(s):
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


class Conc(Base):
    """Concrete inputs: replayed, or drawn."""

    symbolic = False

    def __init__(self, values=None, rng=None, size=1.0, thorough=False):
        self.given = values
        self.rng = rng
        self.size = size
        self.used = {}
        self.world = repo.world(False)
        self.thorough = thorough
        self.evals = 0

    def _take(self, name, kind):
        if self.given is not None and name in self.given:
            v = self.given[name]
            if isinstance(v, dict) and kind in v:
                return v[kind], True
        return None, False

    def int(self, name, lo=None, hi=None):
        v, ok = self._take(name, "int")
        if not ok:
            l = lo if lo is not None else -10
            h = hi if hi is not None else max(l, 10)
            if self.rng is None:
                v = l
            elif self.rng.random() < 0.5:
                v = self.rng.randint(l, min(h, l + 3))
            else:
                v = self.rng.randint(l, h)
        self.used[name] = {"int": v}
        return v

    def digit(self, name, hi=9):
        return str(self.int(name, 0, hi))

    def real(self, name):
        import sympy

        v, ok = self._take(name, "rat")
        if not ok:
            if self.rng is None:
                v = [0, 1]
            else:
                r = self.rng.random()
                if r < 0.2:
                    v = [0, 1]
                else:
                    v = [self.rng.randint(-12, 12), self.rng.choice([1, 1, 2, 3, 6])]
        f = Fraction(v[0], v[1])
        self.used[name] = {"rat": [f.numerator, f.denominator]}
        return sympy.Rational(f.numerator, f.denominator)

    def bool(self, name):
        v, ok = self._take(name, "bool")
        if not ok:
            v = False if self.rng is None else self.rng.random() < 0.5
        self.used[name] = {"bool": v}
        return v

    def text(self, name, no="", lo=0, only=None, alphabet=None):
        v, ok = self._take(name, "str")
        if not ok:
            al = only or alphabet or "udcigUDabxy_0123456789.,-~†φ"
            al = [c for c in al if c not in no]
            n = lo if self.rng is None else self.rng.randint(lo, lo + 4)
            v = "".join((self.rng.choice(al) if self.rng else al[0]) for _ in range(n))
        self.used[name] = {"str": v}
        return v

    def pick(self, name, options, quick=None):
        options = list(options)
        v, ok = self._take(name, "pick")
        if not ok:
            v = 0 if self.rng is None else self.rng.randrange(len(options))
        v = min(v, len(options) - 1)
        self.used[name] = {"pick": v}
        return options[v]

    def seq(self, name, make, lo=0, hi=6):
        n = self.int(name + "_len", lo, hi)
        if n > 24:
            raise Skip()
        return [make(k) for k in range(n)]

    def ufun(self, name, kind="int", lo=None, hi=None):
        given, ok = self._take(name, "fun")
        used = self.used[name] = {"fun": {}}

        def f(k):
            key = str(int(k))
            if key not in used["fun"]:
                if ok and key in given:
                    v = given[key]
                elif kind == "bool":
                    v = self.bool(f"{name}[{key}]")
                elif kind == "int":
                    v = [self.int(f"{name}[{key}]", lo, hi), 1]
                else:
                    r = self.real(f"{name}[{key}]")
                    v = [int(r.p), int(r.q)]
                self.used.pop(f"{name}[{key}]", None)
                used["fun"][key] = v
            v = used["fun"][key]
            if kind == "bool":
                return v
            if kind == "int":
                return v[0]
            import sympy

            return sympy.Rational(v[0], v[1])

        return f

    def fold(self, name, init, step, over, sort="int"):
        class F:
            @staticmethod
            def total():
                acc = init
                for x in over:
                    acc = step(acc, x)
                return acc

        return F

    def read(self, text, mod):
        return eval(text, dict(vars(self.mod(mod))))

    def loop(self, where, *rules, **kw):
        pass

    def whiles(self, *a, **k):
        pass

    def collect(self, f, p=None):
        return None

    def free(self, *objs):
        return None

    def each(self, label, got, over, f=lambda x: x, p=None):
        want = [f(x) for x in over if p is None or p(x)]
        self.ensure(label, list(got) == want)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def cover(self, label):
        pass

    def ensure(self, label, cond):
        self.evals += 1
        if not cond:
            raise Violation(label)


class Enumerate(Conc):
    """Concrete inputs, all combinations of picks (depth first)."""

    def __init__(self, prefix, **k):
        super().__init__(rng=None, **k)
        self.prefix, self.trace = prefix, []

    def _n(self, name, n):
        i = len(self.trace)
        v = self.prefix[i][0] if i < len(self.prefix) else 0
        self.trace.append((v, n))
        return v

    def pick(self, name, options, quick=None):
        options = list(options)
        v = self._n(name, len(options))
        self.used[name] = {"pick": v}
        return options[v]

    def bool(self, name):
        v = bool(self._n(name, 2))
        self.used[name] = {"bool": v}
        return v

    def int(self, name, lo=None, hi=None):
        lo = 0 if lo is None else lo
        hi = lo + 3 if hi is None else hi
        v = lo + self._n(name, hi - lo + 1)
        self.used[name] = {"int": v}
        return v

    def next(self):
        t = list(self.trace)
        while t:
            v, n = t.pop()
            if v + 1 < n:
                return t + [(v + 1, n)]
        return None


class Recorder:
    def __init__(self, cross=0):
        self.obls = []
        self.reached = set()
        self.covers = {}
        self.cross = cross
        self.cross_n = 0
        self.cross_res = {"unsat": 0, "sat": 0, "unknown": 0}

    def add(self, o):
        self.obls.append(o)

    def cross_check(self, c, goal, label):
        """Second opinion of cvc5 on a discharged obligation."""
        import subprocess
        import shutil

        self.cross_n += 1
        s = z3.Solver()
        for e in c.pc:
            s.add(e)
        s.add(goal)
        text = "(set-logic ALL)\n" + s.to_smt2()
        exe = shutil.which("cvc5")
        if not exe:
            return
        try:
            r = subprocess.run(
                [exe, "--lang=smt2", "--tlimit=4000", "--strings-exp", "-"],
                input=text, capture_output=True, text=True, timeout=8,
            )
            w = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        except Exception:
            w = "unknown"
        self.cross_res[w if w in self.cross_res else "unknown"] += 1
        if w == "sat":
            self.obls.append(core.Obligation(label, "unknown", None, 0.0, note="cvc5 disagrees: sat"))


def replay(con, values, thorough=False, shape=False):
    """Run the contract on the untouched code with the given inputs.

    Returns None when it holds, or a description of the failure.  With `shape`, also
    when the contract cannot take the result apart (see misshapen)."""
    g = Conc(values=values, thorough=thorough)
    try:
        with g.world:
            con.fn(g)
    except Skip:
        return None
    except Violation as v:
        return {"label": v.label, "detail": v.detail, "inputs": g.used}
    except Exception as e:
        if shape and misshapen(e):
            return {"label": misshapen(e), "detail": "".join(traceback.format_exception(e))[-1500:], "inputs": g.used}
        if not from_repo(e):
            return None
        return {
            "label": f"no exception ({type(e).__name__})",
            "detail": "".join(traceback.format_exception(e))[-1500:],
            "inputs": g.used,
        }
    finally:
        unpatch()
    return None


def standin(e):
    """Code that uses a stand-in object or function of a contract in a way it was not
    made for: the contract cannot speak of such code."""
    import re
    import sys

    if isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.startswith("contracts"):
        return True
    # callees replaced: plain values may stand for what they give
    if isinstance(e, AttributeError) and PATCHES and type(getattr(e, "obj", None)) in (str, int, tuple):
        return True
    if not isinstance(e, TypeError):
        return False
    text = str(e)
    names = set(re.findall(r"'(\w+)'", text)) | set(re.findall(r"^(\w+)\.<locals>", text)) | set(re.findall(r"^(\w+)\.__\w+__\(\)", text))
    if not names:
        return False
    mods = [m for n, m in list(sys.modules.items()) if n.startswith("contracts") and m]
    if any(n in names for m in mods for n in vars(m) if getattr(vars(m)[n], "__module__", None) == m.__name__):
        return True
    left, seen = [object], set()
    while left:
        for c in type.__subclasses__(left.pop()):
            if c not in seen:
                seen.add(c)
                left.append(c)
    return any(c.__name__ in names and c.__module__.startswith("contracts") for c in seen)


def from_repo(e):
    """The exception arose in (or below) code of /repo, not in the contract."""
    if standin(e):
        return False
    tb = e.__traceback__
    while tb:
        if tb.tb_frame.f_code.co_filename.startswith(repo.REPO + "/"):
            return True
        tb = tb.tb_next
    return False


SHAPE = "result can be taken apart"


def misshapen(e):
    """The contract failed on a plain value it was given (None for a list, too few items):
    where it runs on other inputs, the result there has another shape."""
    if from_repo(e) or standin(e):
        return None
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    if "/contracts/" not in tb.tb_frame.f_code.co_filename:
        return None
    plain = (type(None), bool, int, str, list, tuple, dict, set)
    text = str(e)
    if (
        (isinstance(e, AttributeError) and type(getattr(e, "obj", e)) in plain)
        or (isinstance(e, TypeError) and any(w in text for w in ("'NoneType' object", "'bool' object", "cannot unpack non-iterable")))
        or (isinstance(e, ValueError) and "values to unpack" in text)
        or isinstance(e, (IndexError, KeyError))
    ):
        return f"{SHAPE} ({type(e).__name__})"
    return None


def prove(con, thorough=False, secs=None, cross=0):
    """Symbolic run of a contract; if loop invariants can be laid on the
    variables in several ways, the first way in which all is discharged."""
    from vx.loops import PERM

    PERM.reset()
    first = prove_once(con, thorough, secs, cross)
    t0, total = time.time(), PERM.total()
    for i in range(1, total):
        if not (first["refuted"] or first["unknown"] or first["unsupported"] or first["exceptions"]):
            break
        if time.time() - t0 > (secs or con.secs):
            break
        PERM.reset(i)
        r = prove_once(con, thorough, secs, cross)
        if not (r["refuted"] or r["unknown"] or r["unsupported"] or r["exceptions"]):
            return r
    return first


def prove_once(con, thorough=False, secs=None, cross=0):
    rec = Recorder(cross)
    out = {"contract": con.name, "kind": "deductive", "covers": list(con.covers)}
    W = repo.world(con.opts.get('world', True))
    t0 = time.time()
    exc = []

    def thunk(c):
        g = Sym(c, rec, thorough, con.opts.get('world', True))
        core.ALLOW_HASH[0] = bool(con.opts.get("hash"))
        from vx import loops, seq

        seq.LOOPS.clear()
        seq.ACTIVE.clear()
        loops.WHILES.clear()
        try:
            unpatch()
            con.fn(g)
        except Skip:
            pass
        except Violation as v:
            g.ensure(v.label, False)
        except core.Stop:
            raise
        except Exception as e:
            if c.poison:
                raise c.poison
            if not from_repo(e):
                raise core.Unsupported("contract: " + "".join(traceback.format_exception(e))[-600:])
            r = c.sat()
            if r == z3.sat:
                exc.append((repr(e)[:300], g.values(c.solver.model()), "".join(traceback.format_exception(e))[-1200:]))
            else:
                raise core.Unsupported("exception on an undecided path: " + repr(e)[:200])

    ex = core.Exploration(thunk, timeout_ms=con.opts.get("timeout_ms", 8000),
                          max_paths=con.opts.get("max_paths", 20000),
                          max_secs=secs or con.secs)
    try:
        with W:
            ex.run()
    except core.Stop as e:  # pragma: no cover
        ex.unsupported.append(str(e))
    finally:
        unpatch()
        core.ALLOW_HASH[0] = False
        core.CTX = None
    agg = {}
    for o in rec.obls:
        a = agg.setdefault(o.name, {"discharged": 0, "refuted": 0, "unknown": 0, "secs": 0.0, "trivial": 0})
        a[o.status] += 1
        a["secs"] += o.secs
        a["trivial"] += o.note == "trivial"
        if o.status == "refuted" and len(a.setdefault("models", [])) < 4:
            a["models"].append(o.model)
        if o.status == "refuted" and o.note == "sum":
            a["soft"] = True  # sums over unbounded sequences are uninterpreted
        if o.status == "unknown":
            a["note"] = o.note
    out.update(
        obligations=agg,
        n=len(rec.obls),
        discharged=sum(o.status == "discharged" for o in rec.obls),
        refuted=sum(o.status == "refuted" for o in rec.obls),
        unknown=sum(o.status == "unknown" for o in rec.obls),
        trivial=sum(o.note == "trivial" for o in rec.obls),
        paths=ex.paths,
        completed=ex.completed,
        queries=ex.queries,
        solver_s=round(ex.solver_s, 3),
        unsupported=sorted(set(ex.unsupported))[:6],
        exceptions=exc[:6],
        covers_hit=rec.covers,
        cross=rec.cross_res if cross else None,
        wall_s=round(time.time() - t0, 3),
    )
    return out


def ground(con, seed, runs, secs, thorough=False, stop_after=3):
    """Bounded run-time check of the contract on the untouched code."""
    out = {"contract": con.name, "kind": "bounded", "covers": list(con.covers)}
    t0 = time.time()
    fails, evals, n, skipped, samples = [], 0, 0, 0, []
    shapes = []
    distinct = set()
    W = repo.world(False)
    exhaustive = False

    def one(g):
        nonlocal evals, n, skipped
        n += 1
        try:
            con.fn(g)
            evals += g.evals
            key = repr(sorted(g.used.items()))
            if key not in distinct and g.evals:
                distinct.add(key)
                if len(samples) < 2:
                    samples.append(dict(g.used))
        except Skip:
            skipped += 1
        except Violation as v:
            fails.append({"label": v.label, "detail": v.detail, "inputs": dict(g.used)})
        except Exception as e:
            if from_repo(e):
                fails.append(
                    {
                        "label": f"no exception ({type(e).__name__})",
                        "detail": "".join(traceback.format_exception(e))[-1500:],
                        "inputs": dict(g.used),
                    }
                )
            else:
                if misshapen(e):
                    shapes.append({"label": misshapen(e), "detail": "".join(traceback.format_exception(e))[-1500:], "inputs": dict(g.used)})
                out.setdefault("errors", []).append("".join(traceback.format_exception(e))[-800:])
        finally:
            unpatch()

    with W:
        if con.opts.get("exhaustive"):
            prefix = []
            exhaustive = True
            while prefix is not None:
                g = Enumerate(prefix, thorough=thorough)
                one(g)
                if len(fails) >= stop_after or time.time() - t0 > secs:
                    exhaustive = False
                    break
                prefix = g.next()
        else:
            rng = random.Random(f"{seed}/{con.name}")
            one(Conc(values={}, rng=None, thorough=thorough))
            while n < runs and time.time() - t0 < secs and len(fails) < stop_after and len(out.get("errors", ())) < 40:
                one(Conc(rng=random.Random(rng.random()), thorough=thorough))
    if shapes and len(distinct) >= 3:
        fails += shapes[:2]
    out.update(evaluations=evals, runs=n, skipped=skipped, distinct=len(distinct), exhaustive=exhaustive,
               fails=fails, samples=samples, wall_s=round(time.time() - t0, 3))
    return out
