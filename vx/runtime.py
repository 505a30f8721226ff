"""What instrumented code calls: builtins and entry points aware of symbolic values."""

import builtins as B

import z3

from vx import core
from vx.core import SBool, SNum, SStr, RepList, unsupported
from vx.seq import LoopState, SymSeq, fold_sum, quant


def _symk(x):
    return isinstance(x, (SNum, SStr, SBool, SymSeq, RepList)) or hasattr(type(x), "_vx__")


class _Meta(type):
    """Stand-in for a builtin type: callable, and usable with isinstance."""

    def __instancecheck__(cls, x):
        return B.isinstance(x, cls.real) or B.isinstance(x, cls.also)

    def __subclasscheck__(cls, sub):
        return B.issubclass(sub, cls.real) or cls in sub.__mro__

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)

    def __eq__(cls, other):
        return other is cls or other is cls.real

    def __hash__(cls):
        return hash(cls.real)

    def __or__(cls, other):
        return cls.real | other

    def __getattr__(cls, name):
        return getattr(cls.real, name)

    def __getitem__(cls, item):
        return cls.real[item]

    def __repr__(cls):
        return repr(cls.real)


class vstr(metaclass=_Meta):
    real, also = str, (SStr,)

    @staticmethod
    def make(*a, **k):
        if len(a) == 1 and not k:
            return core.to_str(a[0])
        return str(*a, **k)


class vint(metaclass=_Meta):
    real, also = int, ()

    @staticmethod
    def make(*a, **k):
        return core.to_int(*a) if a and not k else int(*a, **k)


class vfloat(metaclass=_Meta):
    real, also = float, ()

    @staticmethod
    def make(*a):
        if a and isinstance(a[0], (SNum, SBool)):
            return a[0]
        return float(*a)


class vbool(metaclass=_Meta):
    real, also = bool, (SBool,)

    @staticmethod
    def make(*a):
        if a and isinstance(a[0], SBool):
            return a[0]
        if a and isinstance(a[0], SNum):
            return a[0] != 0
        return bool(*a)


class vlist(metaclass=_Meta):
    real, also = list, (SymSeq, RepList)

    @staticmethod
    def make(*a):
        if a and isinstance(a[0], SymSeq):
            return a[0].map(lambda x: x)
        if a and isinstance(a[0], RepList):
            return a[0]
        return list(*a)


class vtuple(metaclass=_Meta):
    real, also = tuple, ()

    @staticmethod
    def make(*a):
        if a and isinstance(a[0], SymSeq):
            return a[0].map(lambda x: x)
        if a and isinstance(a[0], RepList):
            return a[0]
        return tuple(*a)


class vdict(metaclass=_Meta):
    real, also = dict, ()

    @staticmethod
    def make(*a, **k):
        if a and isinstance(a[0], SymSeq):
            unsupported("dict of an unbounded sequence")
        return dict(*a, **k)


class vset(metaclass=_Meta):
    real, also = set, ()

    @staticmethod
    def make(*a):
        if a and isinstance(a[0], SymSeq):
            unsupported("set of an unbounded sequence")
        return set(*a)


class vfrozenset(metaclass=_Meta):
    real, also = frozenset, ()

    @staticmethod
    def make(*a):
        return frozenset(*a)


TYPES = (vstr, vint, vfloat, vbool, vlist, vtuple, vdict, vset, vfrozenset)


def visinstance(x, t):
    return B.isinstance(x, t)


def vlen(x):
    if hasattr(type(x), "vx_len"):
        return x.vx_len()
    if isinstance(x, RepList):
        return x.n
    return len(x)


def vrange(*a):
    if any(isinstance(x, SNum) for x in a):
        cs = [x.concrete() if isinstance(x, SNum) else x for x in a]
        if all(c is not None for c in cs):
            return range(*cs)
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3:
            unsupported("symbolic range with a step")
        lo = lo if isinstance(lo, SNum) else SNum(z3.IntVal(lo))
        hi = hi if isinstance(hi, SNum) else SNum(z3.IntVal(hi))
        # small ranges are enumerated, so are ones the path bounds
        c = core.ctx()
        if c.sat(hi.e - lo.e > 12) == z3.unsat:
            n = (hi - lo)
            if not bool(n > 0):
                return range(0)
            m = n.enumerate()
            return [lo + i for i in range(m)]
        n = SNum(z3.If(hi.e > lo.e, hi.e - lo.e, z3.IntVal(0)))
        return SymSeq(n, lambda k: lo + k, "range")
    return range(*a)


def vsum(xs, start=0):
    if isinstance(xs, SymSeq):
        return fold_sum(xs, start)
    return sum(xs, start)


def vall(xs):
    if isinstance(xs, SymSeq):
        return quant(xs, True)
    return all(xs)


def vany(xs):
    if isinstance(xs, SymSeq):
        return quant(xs, False)
    return any(xs)


def vmap(f, *xs):
    if any(isinstance(x, SymSeq) for x in xs):
        if len(xs) == 1:
            return xs[0].map(f)
        unsupported("map over several unbounded sequences")
    return map(f, *xs)


def vfilter(f, xs):
    if isinstance(xs, SymSeq):
        return xs.map(lambda x: x, f or (lambda x: x))
    return filter(f, xs)


def vzip(*xs):
    if any(isinstance(x, SymSeq) for x in xs):
        if all(isinstance(x, SymSeq) and x.filt is None for x in xs):
            n = xs[0].n
            for x in xs[1:]:
                n = SNum(z3.If(x.n.e < n.e, x.n.e, n.e))
            return SymSeq(n, lambda k: tuple(x.at(k) for x in xs), "zip")
        unsupported("zip of an unbounded sequence")
    return zip(*xs)


def venumerate(xs, start=0):
    if isinstance(xs, SymSeq):
        if xs.filt is not None:
            unsupported("enumerate of a filtered sequence")
        return SymSeq(xs.n, lambda k: (k + start, xs.at(k)), "enumerate")
    return enumerate(xs, start)


def vsorted(xs, **k):
    if isinstance(xs, SymSeq):
        f = getattr(xs, "vx_sorted", None)
        if f:
            return f(**k)
        unsupported("sorted of an unbounded sequence")
    return sorted(xs, **k)


def vreversed(xs):
    if isinstance(xs, SymSeq):
        if xs.filt is not None:
            unsupported("reversed of a filtered sequence")
        return SymSeq(xs.n, lambda k: xs.at(xs.n - 1 - k), "reversed")
    if isinstance(xs, SStr):
        return iter(xs[::-1])
    return reversed(xs)


def vabs(x):
    return abs(x)


class HashVal:
    """hash() of something symbolic: equal when the hashed structures are equal."""

    _vx__ = True

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        return isinstance(o, HashVal) and veq(self.parts, o.parts)

    def __hash__(self):
        return 7


def veq(a, b):
    """Structural equality as one condition (no fork where avoidable)."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            r = veq(x, y)
            if r is False:
                return False
            if isinstance(r, SBool):
                conds.append(r.e)
            elif not r:
                return False
        return SBool(z3.And(conds)) if conds else True
    return a == b


class FSet:
    """Parts of a hash that do not depend on order."""

    def __init__(self, xs):
        self.xs = list(xs)

    def __eq__(self, o):
        return (
            isinstance(o, FSet)
            and len(self.xs) == len(o.xs)
            and all(any(bool(veq(x, y)) for y in o.xs) for x in self.xs)
            and all(any(bool(veq(x, y)) for x in self.xs) for y in o.xs)
        )


def _deep(x):
    if isinstance(x, (tuple, frozenset)):
        return any(_deep(y) for y in x)
    return _symk(x) or isinstance(x, HashVal)


def vhash(x):
    if isinstance(x, (SNum, SStr, SBool, RepList)):
        return HashVal(x)
    if type(x) is tuple:
        parts = tuple(vhash(y) for y in x)
        return HashVal(parts) if any(isinstance(p, HashVal) for p in parts) else hash(x)
    h = getattr(type(x), "__hash__", None)
    if h is None:
        raise TypeError(f"unhashable type: {type(x).__name__!r}")
    if type(x) is frozenset:
        return HashVal(FSet(x)) if _deep(x) else hash(x)
    raw = getattr(h, "_vx_raw", None)
    if raw is not None:
        return raw(x)
    if hasattr(type(x), "_vx__"):
        return HashVal(x)
    return hash(x)


def hashm(f):
    """A __hash__ method: Python needs an integer; symbolic ones all collide
    (dicts and sets then go by __eq__ alone)."""

    def __hash__(self):
        r = f(self)
        return r if isinstance(r, int) else 7

    __hash__._vx_raw = f
    return __hash__


def _deep2(x):
    for y in x:
        if isinstance(y, tuple):
            if _deep2(y):
                return True
        elif _symk(y) or type(y).__module__.startswith("neutrinomass"):
            return True
        elif isinstance(y, (list, dict, set)):
            raise TypeError(f"unhashable type: {type(y).__name__!r}")
    return False


# entry points ------------------------------------------------------------------------


def fmt(*parts):
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            s = vrepr(v)
        elif spec is None or spec == "":
            s = core.to_str(v)
        else:
            if core.is_sym(v):
                unsupported("format spec on a symbolic value")
            s = format(v, spec)
        sym = sym or isinstance(s, SStr)
        out.append(s)
    if not sym:
        return "".join(out)
    return core.join("", out)


def vjoin(sep, xs):
    if not isinstance(sep, (str, SStr)):
        return sep.join(xs)
    if isinstance(xs, SymSeq):
        unsupported("join of an unbounded sequence")
    xs = list(xs)
    if isinstance(sep, SStr) or any(isinstance(x, SStr) for x in xs):
        return core.join(sep, xs)
    return sep.join(xs)


def vmod(s, args):
    tup = args if isinstance(args, tuple) else (args,)
    if not any(isinstance(x, (SStr, SNum, SBool)) for x in tup):
        return s % args
    out, i, k = [], 0, 0
    while i < len(s):
        if s[i] == "%":
            if s[i + 1] == "%":
                out.append("%")
            elif s[i + 1] in "sd":
                out.append(core.to_str(tup[k]))
                k += 1
            else:
                unsupported("% format of a symbolic value")
            i += 2
        else:
            out.append(s[i])
            i += 1
    return core.join("", out)


def vin(x, c):
    if hasattr(type(c), "vx_contains"):
        return c.vx_contains(x)
    if isinstance(c, SymSeq):
        if c.filt is None:
            return bool(quant(c.map(lambda y: y == x), False))
        unsupported("in of a filtered sequence")
    if isinstance(c, SStr):
        return x in c
    if isinstance(x, (SStr, SNum)) and isinstance(c, str):
        if isinstance(x, SStr):
            us = x._fixed()
            if us is not None and len(us) == 1:
                return any(bool(x == ch) for ch in c)
        unsupported("symbolic needle in a concrete string")
    if isinstance(c, (set, frozenset, dict)) or type(c).__name__ in ("dict_keys",):
        if _symk(x) or (isinstance(x, tuple) and _deep2(x)) or (len(c) and any(_symk(y) for y in c)):
            return any(bool(veq(x, y)) for y in c)
        return x in c
    return x in c


def vget(o, i):
    if isinstance(o, dict) and not isinstance(o, type):
        if _symk(i) or (isinstance(i, tuple) and _deep2(i)) or any(_symk(y) for y in o):
            for y in o:
                if bool(veq(i, y)):
                    return dict.__getitem__(o, y)
            raise KeyError(i)
        return o[i]
    if isinstance(i, SNum) and isinstance(o, (list, tuple, str)):
        return o[i.enumerate()]
    return o[i]


def vconc(it):
    return not isinstance(it, SymSeq)


def vcomp(kind, it, has_cond, cond, elt):
    if kind in ("set", "dict"):
        f = getattr(it, "vx_comp_" + kind, None)
        if f:
            return f(cond if has_cond else None, elt)
        unsupported(f"{kind} comprehension over an unbounded sequence")
    if has_cond:
        return it.map(elt, cond)
    return it.map(elt)


def vfor(it, site):
    return LoopState(it, site)


def viter(out):
    return iter(out) if isinstance(out, list) else out


def vwhile(site, order):
    from vx.loops import WhileState

    return WhileState(site, order)


def vtensor():
    from vx import ghost_tensor

    return ghost_tensor.module()


def evaluate(text, env, locals_=None, world=True):
    """eval of text with symbolic pieces: the text is parsed with a stand-in character
    for each piece; pieces may only lie inside string literals, where they need no
    escapes, and are put back as they are."""
    if not isinstance(text, SStr):
        if not isinstance(text, str):
            return eval(text, env, locals_)
        us = text
    else:
        us = core.units_of(text)
    import ast

    from vx.transform import Transform

    pieces = {}
    out = []
    for u in us:
        if isinstance(u, str):
            out.append(u)
            continue
        if isinstance(u, core.Atom) and u.kind == "opaque" and any(u.can(ch) for ch in "'\"\\\n{}"):
            unsupported("eval of an opaque piece that may need escapes")
        ch = chr(0xE000 + len(pieces))
        pieces[ch] = u
        out.append(ch)
    tree = ast.parse("".join(out), mode="eval")

    class Put(ast.NodeTransformer):
        def visit_Constant(self, n):
            if isinstance(n.value, str) and any(ch in pieces for ch in n.value):
                v = core.mkstr([pieces.get(ch, ch) for ch in n.value])
                name = f"_vx_lit{len(lits)}"
                lits[name] = v
                return ast.copy_location(ast.Name(name, ast.Load()), n)
            return n

        def visit_Name(self, n):
            if any(ch in pieces for ch in n.id):
                unsupported("eval of an opaque piece outside a literal")
            return n

    lits = {}
    tree = Put().visit(tree)
    tree = Transform("eval", world == "ghost").visit(tree)
    ast.fix_missing_locations(tree)
    env = {**env, **(locals_ or {}), **lits, "__builtins__": make_builtins()}
    return eval(compile(tree, "<text>", "eval"), env)


ENTRY = {
    "_vx_tensor": vtensor,
    "_vx_hashm": hashm,
    "_vx_fmt": fmt,
    "_vx_join": vjoin,
    "_vx_mod": vmod,
    "_vx_in": vin,
    "_vx_get": vget,
    "_vx_conc": vconc,
    "_vx_comp": vcomp,
    "_vx_for": vfor,
    "_vx_iter": viter,
    "_vx_while": vwhile,
    "_vx_eval": evaluate,
}

OVERRIDES = {
    "str": vstr,
    "int": vint,
    "float": vfloat,
    "bool": vbool,
    "list": vlist,
    "tuple": vtuple,
    "dict": vdict,
    "set": vset,
    "frozenset": vfrozenset,
    "isinstance": visinstance,
    "len": vlen,
    "range": vrange,
    "sum": vsum,
    "all": vall,
    "any": vany,
    "map": vmap,
    "filter": vfilter,
    "zip": vzip,
    "enumerate": venumerate,
    "sorted": vsorted,
    "reversed": vreversed,
    "hash": vhash,
}


def vrepr(x):
    if core._deep_sym(x):
        return core._repr_deep(x)
    if type(x).__module__.startswith(("neutrinomass", "vx")):
        return type(x).__repr__(x)
    return repr(x)


OVERRIDES["repr"] = vrepr


def make_builtins():
    d = dict(vars(B))
    d.update(OVERRIDES)
    d.update(ENTRY)
    return d
