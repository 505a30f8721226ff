"""Removing duplicates from lists, and the other list functions everything leans on."""

from collections import Counter

from contracts.lib import multiset_eq
from vx.harness import contract

LEVEL = "proof"
P = "C19"
U = "completions.utils."
V = "utils.functions."
PRELOAD = ("completions.utils", "utils.functions")
ASSUMES = ("the relation handed to the removers is an equivalence and does not change", "lists up to the stated lengths; keys and elements free")


class Item:
    """An element only told apart by identity; its class is `key`."""

    def __init__(self, n, key):
        self.n, self.key = n, key

    def __repr__(self):
        return f"<{self.n}:{self.key}>"


def items(g, hi):
    n = g.pick("n", range(hi + 1))
    return [Item(k, g.int(f"key{k}", 0, 2 if not g.symbolic else None)) for k in range(n)]


def firsts(g, xs):
    """Positions of the first element of each class."""
    out = []
    for x in xs:
        if not any(bool(x.key == xs[k].key) for k in out):
            out.append(x.n)
    return out


@contract(P, covers=[V + "remove_equivalent"], secs=120, runs=400)
def removed_in_place(g):
    """remove_equivalent leaves in the list exactly the first element of each class, in
    order, and returns nothing."""
    xs = items(g, 5 if g.thorough else (4 if g.symbolic else 8))
    l = list(xs)
    r = g.fn(V + "remove_equivalent")(l, lambda x, y: x.key == y.key)
    g.ensure("firsts, in order", [x.n for x in l] == firsts(g, xs))
    g.ensure("same objects", all(x is xs[x.n] for x in l))
    g.ensure("in place", r is None)


@contract(P, covers=[V + "remove_equivalent_nopop", V + "dropped_vals"], secs=120, runs=400)
def removed_copy(g):
    """remove_equivalent_nopop gives the same as a new list and leaves the given one."""
    xs = items(g, 5 if g.thorough else (4 if g.symbolic else 8))
    l = list(xs)
    r = g.fn(V + "remove_equivalent_nopop")(l, lambda x, y: x.key == y.key)
    g.ensure("firsts, in order", [x.n for x in r] == firsts(g, xs))
    g.ensure("given list kept", len(l) == len(xs) and all(a is b for a, b in zip(l, xs)))
    g.ensure("new list", r is not l)


@contract(P, covers=[V + "remove_equivalent", V + "remove_equivalent_nopop"], secs=60, runs=200)
def laws(g):
    """Removing twice is removing once; on a list without duplicates it does nothing; and
    of two elements one is kept exactly when they are equivalent."""
    xs = items(g, 3)
    eq = lambda x, y: x.key == y.key
    for f in (V + "remove_equivalent", V + "remove_equivalent_nopop"):
        def once(l):
            l = list(l)
            r = g.fn(f)(l, eq)
            return l if r is None else r

        a = once(xs)
        g.ensure("idempotent", [x.n for x in once(a)] == [x.n for x in a])
        for x in xs:
            g.ensure("every class kept", any(bool(y.key == x.key) for y in a))
        for j in range(len(a)):
            for k in range(j):
                g.ensure("no two alike", not bool(a[j].key == a[k].key))


@contract(P, covers=[V + "dropped_vals"], secs=40, runs=200)
def dropped(g):
    """dropped_vals keeps what is at the other positions, in order."""
    n = g.pick("n", range(6))
    l = [g.int(f"x{k}") for k in range(n)]
    s = {k for k in range(n) if g.pick(f"drop{k}", [False, True])}
    r = g.fn(V + "dropped_vals")(l, s)
    g.ensure("others", g.eq(r, [l[k] for k in range(n) if k not in s]))
    g.ensure("given list kept", len(l) == n)


@contract(P, covers=[U + "chunks", V + "chunks"], secs=40, runs=300)
def chunked(g):
    """chunks cuts a list or tuple into pieces of the size, the last may be shorter,
    that together are the list."""
    n = g.pick("n", range(8))
    size = g.pick("size", [1, 2, 3, 4, 5])
    l = [g.int(f"x{k}") for k in range(n)]
    if g.pick("tuple", [False, True]):
        l = tuple(l)
    for f in (U, V):
        c = list(g.fn(f + "chunks")(l, size))
        g.ensure("the list", g.eq([x for p in c for x in p], list(l)))
        g.ensure("sizes", all(len(p) == size for p in c[:-1]) and all(0 < len(p) <= size for p in c[-1:]))
        g.ensure("kind", all(type(p) is type(l) for p in c))
        g.ensure("same as pieces", len(c) == (n + size - 1) // size)


# lists of any length -------------------------------------------------------------
# An element is the position it had; R gives the first position of its class:
# every equivalence relation on positions is R(x) == R(y) for such an R.


class Elem:
    def __init__(self, e):
        self.e = e


def classes():
    import z3
    from vx.core import SBool, ctx

    R = z3.Function("R", z3.IntSort(), z3.IntSort())
    p = z3.Int("p")
    ctx().add(z3.ForAll([p], z3.Implies(p >= 0, z3.And(R(p) >= 0, R(p) <= p, R(R(p)) == R(p))), patterns=[R(p)]))
    return R, lambda x, y: SBool(R(x.e) == R(y.e))


@contract(P, covers=[V + "remove_equivalent"], mode="sym", secs=100, timeout_ms=20000)
def any_length_in_place(g):
    """remove_equivalent on a list of any length: both loops terminate, and what is left
    are exactly the first elements of the classes, in order."""
    import z3
    from vx.core import SBool, SNum
    from vx.loops import SymList

    R, eq = classes()
    n = g.int("n", 0)
    p, a, b = z3.Ints("p a b")
    l = SymList(n, z3.Lambda([p], p), Elem, lambda x: x.e)
    l.pos = z3.Lambda([p], p)

    def popped(j):
        q, old = z3.Int("q"), l.pos
        l.pos = z3.Lambda([q], z3.If(old[q] > j.e, old[q] - 1, old[q]))

    l.ghost["pos"] = popped
    at = lambda k: z3.Select(l.arr, k)

    def kept(i):
        """order, every first still there, classes of the first i not repeated"""
        m = l.n.e
        return [
            z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), at(a) < at(b))),
            z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < m), z3.And(0 <= at(a), at(a) < n.e))),
            z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n.e, R(p) == p), z3.And(0 <= l.pos[p], l.pos[p] < m, at(l.pos[p]) == p))),
            z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < i.e, a < b, b < m), R(at(a)) != R(at(b)))),
            m >= 0, m <= n.e,
        ]

    def num(x):
        return x if isinstance(x, SNum) else SNum(z3.IntVal(x))

    def fresh(*names):
        def havoc(env):
            from vx.core import ctx

            c = ctx()
            if env["l"] is not l:
                raise KeyError
            l.n = SNum(c.fresh(z3.IntSort(), "len"))
            l.arr = c.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), "arr")
            l.pos = c.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), "pos")
            out = {k: SNum(c.fresh(z3.IntSort(), k)) for k in names}
            out["l"] = l
            return out

        return havoc

    S = lambda xs: [SBool(x) for x in xs]

    def outer(env):
        i = num(env["i"])
        return S(kept(i) + [i.e >= 0, z3.Implies(n.e > 0, z3.And(i.e <= l.n.e, l.n.e > 0))])

    def inner(env):
        i, j = num(env["i"]), num(env["j"])
        return S(kept(i) + [i.e >= 0, i.e < j.e, j.e <= l.n.e,
                            z3.ForAll([b], z3.Implies(z3.And(i.e < b, b < j.e), R(at(i.e)) != R(at(b))))])

    f = "functions:remove_equivalent"
    g.whiles(f, 0, fresh("i"), outer, lambda env: n - num(env["i"]))
    g.whiles(f, 1, fresh("j"), inner, lambda env: l.n - num(env["j"]))
    r = g.fn(V + "remove_equivalent")(l, eq)
    m = l.n.e
    k = z3.Int("k")
    inside = z3.And(0 <= k, k < m)
    g.ensure("in order", SBool(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), at(a) < at(b)))))
    g.ensure("every first kept", SBool(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n.e, R(p) == p), z3.Exists([k], z3.And(inside, at(k) == p))))))
    # lemma instance: where the first of the class of element k is
    from vx.core import ctx

    kk = ctx().fresh(z3.IntSort(), "kk")
    ctx().add(z3.And(0 <= kk, kk < m))
    w = l.pos[R(at(kk))]
    g.ensure("only firsts kept", SBool(z3.And(w == w, R(at(kk)) == at(kk))))
    g.ensure("in place", r is None)


@contract(P, covers=[V + "remove_equivalent_nopop"], mode="sym", secs=100, timeout_ms=20000)
def any_length_copy(g):
    """remove_equivalent_nopop on a list of any length: both loops terminate, and what is
    dropped are exactly the elements that are not the first of their class (dropping by
    the contract of dropped_vals)."""
    import z3
    from vx.core import SBool, SNum, ctx
    from vx.loops import SymList, SymSet

    R, eq = classes()
    n = g.int("n", 0)
    p, q = z3.Ints("p q")
    ident = z3.Lambda([p], p)
    l = SymList(n, ident, Elem, lambda x: x.e)
    num = lambda x: x if isinstance(x, SNum) else SNum(z3.IntVal(x))

    def has(s, e):
        if isinstance(s, SymSet):
            return s.has(e)
        if isinstance(s, (set, frozenset)) and not s:
            return z3.BoolVal(False)
        raise KeyError

    def the_set(env):
        s = [k for k, v in env.items() if isinstance(v, (SymSet, set))]
        if len(s) != 1 or env.get("l", l) is not l:
            raise KeyError
        return s[0]

    def fresh(*names):
        def havoc(env):
            c = ctx()
            out = {k: SNum(c.fresh(z3.IntSort(), k)) for k in names}
            out[the_set(env)] = SymSet(c.fresh(z3.ArraySort(z3.IntSort(), z3.BoolSort()), "set"))
            return out

        return havoc

    def member(env, done):
        s = env[the_set(env)]
        i = num(env["i"])
        return [
            z3.ForAll([q], z3.Implies(has(s, q), z3.And(0 <= q, q < n.e, R(q) < q, R(q) <= i.e))),
            z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n.e, R(q) < q, done(q)), has(s, q)), patterns=[R(q)]),
            i.e >= 0,
        ]

    S = lambda xs: [SBool(x) for x in xs]

    def outer(env):
        i = num(env["i"])
        s = env[the_set(env)]
        return S(member(env, lambda q: R(q) < i.e) + [z3.ForAll([q], z3.Implies(has(s, q), R(q) < i.e)), z3.Implies(n.e > 0, i.e < n.e)])

    def inner(env):
        i, j = num(env["i"]), num(env["j"])
        return S(member(env, lambda q: z3.Or(R(q) < i.e, z3.And(R(q) == i.e, q < j.e))) + [i.e < j.e, j.e <= n.e, R(i.e) == i.e])

    f = "functions:remove_equivalent_nopop"
    g.whiles(f, 0, fresh("i"), outer, lambda env: n - num(env["i"]))
    g.whiles(f, 1, fresh("j"), inner,
             lambda env: SNum(2 * (n.e - num(env["j"]).e) + z3.If(has(env[the_set(env)], num(env["j"]).e), 0, 1)))
    got = []
    g.callee(V + "dropped_vals", lambda a, b: got.append((a, b)) or "kept")
    r = g.fn(V + "remove_equivalent_nopop")(l, eq)
    g.ensure("result of dropped_vals", len(got) == 1 and r == "kept" and got[0][0] is l)
    s = got[0][1]
    g.ensure("given list kept", l.n is n and l.arr is ident)
    g.ensure("dropped: not the first of a class", SBool(z3.ForAll([q], z3.Implies(has(s, q), z3.And(0 <= q, q < n.e, R(q) != q)))))
    x = ctx().fresh(z3.IntSort(), "x")
    g.ensure("all of them", SBool(z3.Implies(z3.And(0 <= x, x < n.e, R(x) != x), has(s, x))))


@contract(P, covers=[V + "dropped_vals"], mode="sym", secs=60, timeout_ms=20000)
def any_length_dropped(g):
    """dropped_vals on a list of any length: each kept element is put where the number of
    kept ones before it says, and there is room for exactly those."""
    import z3
    from vx.core import SBool, SNum, ctx
    from vx.loops import Fold, SymList, SymSet, Values
    from vx.seq import SymSeq

    n = g.int("n", 0)
    elems = {}
    l = SymSeq(n, lambda k: Elem(k.e), "l")
    A = z3.Array("vals", z3.IntSort(), z3.BoolSort())
    s = SymSet(A)
    count = Fold("kept", 0, lambda acc, k: acc + SNum(z3.If(A[k.e], 0, 1)))
    F = count.F
    c = ctx()
    a, b, k = z3.Ints("a b k")
    # F counts: F(0) = 0, F(k+1) = F(k) + [k not in vals]
    c.add(F(0) == 0)
    c.add(z3.ForAll([k], z3.Implies(k >= 0, F(k + 1) == F(k) + z3.If(A[k], 0, 1)), patterns=[z3.MultiPattern(F(k), z3.Select(A, k))]))
    mono = lambda hi: z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= hi), F(a) <= F(b)))
    h = c.fresh(z3.IntSort(), "h")
    g.ensure("lemma: F grows, base", SBool(mono(z3.IntVal(0))))
    x, y = c.fresh(z3.IntSort(), "x"), c.fresh(z3.IntSort(), "y")
    g.ensure("lemma: F grows, step", SBool(z3.Implies(z3.And(h >= 0, mono(h), 0 <= x, x <= y, y <= h + 1, F(h + 1) == F(h) + z3.If(A[h], 0, 1)), F(x) <= F(y))))
    c.add(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), F(a) <= F(b)), patterns=[z3.MultiPattern(F(a), F(b))]))
    # precondition: vals are positions of the list, so their number is n - F(n)
    c.add(z3.ForAll([k], z3.Implies(A[k], z3.And(0 <= k, k < n.e))))
    type(s).vx_len = lambda self: SNum(n.e - F(n.e))

    def make(k):
        return SymList(SNum(F(n.e)), c.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), "out"), Elem, lambda v: v.e)

    def inv(k, v):
        k = k.e if isinstance(k, SNum) else z3.IntVal(k)
        if not isinstance(v, SymList):
            return SBool(z3.And(k == 0, v.n.e == F(n.e)))
        return SBool(z3.And(v.n.e == F(n.e), z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < k, z3.Not(A[a])), v.arr[F(a)] == a))))

    from vx.core import RepList

    g.loop("functions:dropped_vals", count, Values(make, inv, (SymList, RepList)))
    # instances of the definition the code needs at its step
    r = g.fn(V + "dropped_vals")(l, s)
    if isinstance(r, RepList):
        g.ensure("nothing from nothing", n == 0)
        return
    g.ensure("as many as are kept", r.n == SNum(F(n.e)))
    g.ensure("each at its place", SBool(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n.e, z3.Not(A[a])), r.arr[F(a)] == a))))


def nested(g, name, depth=0):
    kind = g.pick(name, ["leaf", "list", "tuple"] if depth < 2 else ["leaf"])
    if kind == "leaf":
        v = g.int(name + "_v")
        return v, [v]
    k = g.pick(name + "_n", [0, 1, 2])
    ps = [nested(g, f"{name}.{j}", depth + 1) for j in range(k)]
    out = [p[0] for p in ps]
    return (out if kind == "list" else tuple(out)), [v for p in ps for v in p[1]]


@contract(P, covers=[U + "flatten"], secs=60, runs=400)
def flattened(g):
    """flatten gives the leaves of nested lists and tuples from left to right."""
    k = g.pick("n", [0, 1, 2])
    ps = [nested(g, f"t{j}", 1 if g.symbolic else 0) for j in range(k)]
    c = [p[0] for p in ps]
    g.ensure("leaves", g.eq(list(g.fn(U + "flatten")(c)), [v for p in ps for v in p[1]]))
    g.ensure("of a tuple too", g.eq(list(g.fn(U + "flatten")(tuple(c))), [v for p in ps for v in p[1]]))


@contract(P, covers=[U + "foldr"], secs=40, runs=300)
def folded(g):
    """foldr(f, [a, b, c]) is f(a, f(b, c)), and f(a, f(b, f(c, z))) with a start z."""
    n = g.pick("n", range(1, 5))
    l = [g.int(f"x{k}") for k in range(n)]
    f = lambda a, b: ("f", a, b)
    fold = g.fn(U + "foldr")

    def right(xs):
        return xs[0] if len(xs) == 1 else f(xs[0], right(xs[1:]))

    g.ensure("without a start", g.eq(fold(f, l), right(l)))
    z = g.int("z")
    g.ensure("with a start", g.eq(fold(f, l, z), right(l + [z])))
    g.ensure("start of nothing", g.eq(fold(f, [], z), z))
    g.ensure("zero start", g.eq(fold(lambda a, b: a - b, l, 0), right_sub(l + [0])))


def right_sub(xs):
    return xs[0] if len(xs) == 1 else xs[0] - right_sub(xs[1:])


@contract(P, covers=[U + "fixedpoint"], secs=40, runs=200)
def fixed(g):
    """fixedpoint gives a value that f keeps, reached from the start by applying f, and
    the start if f keeps it."""
    n = g.int("n", 0, 5)
    top = g.int("top", 0, 5)
    f = lambda x: x + 1 if bool(x < top) else x
    r = g.fn(U + "fixedpoint")(f, n)
    g.ensure("kept", f(r) == r)
    g.ensure("reached", r == (n if bool(n >= top) else top))


@contract(P, covers=[U + "multiset_equality"], secs=60, runs=400)
def multisets(g):
    """multiset_equality is equality of multisets: lists agree up to order."""
    n, m = g.pick("n", range(5)), g.pick("m", range(5))
    xs = [g.pick(f"x{k}", "abc", quick=2 if g.symbolic else None) for k in range(n)]
    ys = [g.pick(f"y{k}", "abc", quick=2 if g.symbolic else None) for k in range(m)]
    f = g.fn(U + "multiset_equality")
    want = sorted(xs) == sorted(ys)
    g.ensure("up to order", bool(f(xs, ys)) == want)
    g.ensure("symmetric", bool(f(ys, xs)) == want)
    g.ensure("iterators", bool(f(iter(xs), tuple(ys))) == want)


@contract(P, covers=[U + "multiple_replace"], mode="conc", runs=500)
def replaced(g):
    """multiple_replace replaces every occurrence of the keys at once: no replacement is
    replaced again (keys of one length)."""
    keys = ["u0", "u1", "-i", "c.", "(1"]
    m = {k: g.pick("v" + k, keys + ["", "x"]) for k in keys if g.pick("has" + k, [False, True])}
    parts = [g.pick(f"p{k}", keys + ["z", " ", "i"]) for k in range(g.pick("len", range(7)))]
    text = "".join(parts)
    out, i = "", 0
    while i < len(text):
        t = text[i : i + 2]
        if t in m:
            out, i = out + m[t], i + 2
        else:
            out, i = out + text[i], i + 1
    g.ensure("all at once", g.fn(U + "multiple_replace")(dict(m), text) == out)


@contract(P, covers=[U + "allowed_lor_dyn"])
def allowed(g):
    """The Lorentz labels a derivative may take a field to: vector for a boson, the
    opposite kind for a fermion."""
    class F:
        def __init__(self, b, l):
            self.is_boson, self.is_left_fermion, self.is_right_fermion = b, l, not b and not l

    f = g.fn(U + "allowed_lor_dyn")
    g.ensure("boson", f(F(True, False)) == "11")
    g.ensure("left", f(F(False, True)) == "01")
    g.ensure("right", f(F(False, False)) == "10")
