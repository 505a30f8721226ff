"""Reading operators off a Hilbert series, and naming those with derivatives."""

import itertools
from collections import Counter
from string import ascii_lowercase

from vx.harness import contract

LEVEL = "proof"
P = "C29"
H = "tensormethod.parse_hs."
D = "tensormethod.deriv_operators."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.contract", "tensormethod.hs", "tensormethod.parse_hs", "tensormethod.deriv_operators")
ASSUMES = (
    "sympy: products, powers and derivatives of functions of X",
    "invariants by its contracts (C08): here any lists",
    "D by its contracts (C03)",
)
NAMES = ["L", "Ld", "H", "Hd", "Q", "Qd", "eb", "ebd", "ub", "ubd", "db", "dbd", "G", "Gb", "W", "Wb", "B", "Bb"]


def meant(g, name):
    """The field a symbol of the series stands for."""
    sm = g.mod("tensormethod.sm")
    if name in ("G", "Gb", "W", "Wb", "B", "Bb"):
        return getattr(sm, name)
    if name.endswith("d") and name != "d":
        return getattr(sm, name[:-1]).conj
    return getattr(sm, name)


def labels(u, d, fermion):
    """Lorentz labels of a derivative of a field with labels (u, d): fermions keep what a
    field equation would remove, bosons what symmetrises all or nothing."""
    out = []
    for a, b in itertools.product((1, -1), repeat=2):
        if u + a < 0 or d + b < 0:
            continue
        if (fermion and (a, b) == (-1, -1)) or (not fermion and a != b):
            continue
        out.append((u + a, d + b))
    return out


@contract(P, covers=[H + "deriv_possibilities"], secs=60, gsecs=10)
def a_derivative(g):
    """The n-th derivatives of a field: those of every possible first derivative, each
    label once; a field without derivatives is left alone."""

    class F:
        def __init__(self, u, d, fermion, n=0, path=()):
            self.lorentz_irrep, self.is_fermion, self.derivs, self.path = (u, d), fermion, n, path
            self.is_boson = not fermion
            self.dynkin = f"{u}{d}000" if isinstance(u, int) else None

        @property
        def dynkin_ints(self):
            return self.lorentz_irrep + (0, 0, 0)

    fermion = g.bool("fermion")
    u, d = g.pick("labels", [(a, b) for a in range(4) for b in range(4) if True])
    g.assume((u + d) % 2 == 1 if fermion else (u + d) % 2 == 0)
    n = g.int("order", -1, 4)
    f = F(u, d, fermion)

    def act(f, dynkin):
        a, b = int(dynkin[0]), int(dynkin[1])
        assert len(dynkin) == 2
        return F(a, b, f.is_fermion, f.derivs + 1, f.path + ((a, b),))

    import sympy

    g.callee("tensormethod.core.D", act)
    got = g.fn(H + "deriv_possibilities")(f, n)
    want = [()]
    for _ in range(max(int(n), 0)):
        want = [w + (q,) for w in want for q in labels(*(w[-1] if w else (u, d)), fermion)]
    g.ensure("every way", Counter(x.path for x in got) == Counter(want))
    if n < 1:
        g.ensure("alone", got[0] is f)


@contract(P, covers=[H + "proc_term", H + "no_numbers", H + "is_symbolic_deriv", H + "proc_sum"], secs=60, gsecs=10)
def a_term(g):
    """A term of the series gives a list of fields for every choice among the
    possibilities of its derivatives; numbers go, fields stay with their multiplicity."""
    n = g.pick("factors", [1, 2, 3])
    parts, want = [], [[]]
    number = 0
    for k in range(n):
        kind = g.pick(f"kind{k}", ["number", "field", "power", "derivative", "derivatives"])
        number += kind == "number"
        if kind == "number":
            parts.append([1])
            continue
        times = 2 if kind in ("power", "derivatives") else 1
        if kind.startswith("d"):
            order = g.pick(f"order{k}", [1, 2])
            parts.append([("D", order, f"f{k}")] * times)
            opts = [f"f{k}:{order}:{j}" for j in range(3)]
        else:
            parts.append([f"f{k}"] * times)
            opts = [f"f{k}"]
        for _ in range(times):
            want = [w + [o] for w in want for o in opts]
    g.assume(number < n)
    g.callee(H + "deriv_possibilities", lambda f, order: [f"{f}:{order}:{j}" for j in range(3)])
    got = g.fn(H + "proc_term")(parts)
    g.ensure("every choice", Counter(tuple(sorted(x)) for x in got) == Counter(tuple(sorted(w)) for w in want))


def monomial(g, name, names, hi=3):
    """Factors {symbol: power} of a term."""
    k = g.int(name + "n", 1, hi)
    return {g.pick(f"{name}s{j}", names): g.int(f"{name}p{j}", 1, 6 if k == 1 else 3) for j in range(k)}


def spread(factors, n):
    """Ways in which n derivatives act on the factors: {orders of each factor: number}."""
    flat = [s for s, p in factors.items() for _ in range(p)]
    out = Counter()
    for hit in itertools.product(range(len(flat)), repeat=n):
        out[tuple(sorted((s, hit.count(j)) for j, s in enumerate(flat)))] += 1
    return out


def series(g, hs, name, n_terms, names=NAMES):
    """A series as sympy writes it, and its terms as {factors, derivatives, coefficient}."""
    import sympy

    terms, ex = {}, []
    for t in range(n_terms):
        m = monomial(g, f"{name}{t}", names)
        n = g.pick(f"{name}{t}D", [0, 1, 2, 3] if sum(m.values()) < 6 else [0, 1])
        c = sympy.Rational(g.int(f"{name}{t}c", 1, 5), g.pick(f"{name}{t}q", [1, 2])) * g.pick(f"{name}{t}sign", [1, -1])
        key = (tuple(sorted(m.items())), n)
        terms[key] = terms.get(key, 0) + c
        ex.append(c * hs.D ** n * sympy.Mul(*[getattr(hs, s)(hs.X) ** p for s, p in m.items()]))
    return terms, ex


@contract(P, covers=[H + "distribute_derivatives"], mode="conc", runs=200, gsecs=20)
def product_rule(g):
    """Derivatives are distributed by the product rule, each term's own number of them."""
    import sympy

    hs = g.mod("tensormethod.hs")
    terms, ex = series(g, hs, "t", g.int("terms", 1, 4))
    whole = sympy.Add(*ex)
    given = whole if isinstance(whole, sympy.Add) and not g.bool("as a list") else list(sympy.Add.make_args(whole))
    want = 0
    for (m, n), c in terms.items():
        for ways, k in spread(dict(m), n).items():
            want += c * k * sympy.Mul(*[sympy.Derivative(getattr(hs, s)(hs.X), (hs.X, o)) if o else getattr(hs, s)(hs.X) for s, o in ways])
    g.assume(whole != 0)
    got = g.fn(H + "distribute_derivatives")(given)
    g.ensure("product rule", sympy.expand(got - want) == 0)


def is_like(g, f, name, order):
    """f is a derivative of that order of the field the symbol stands for."""
    b = meant(g, name)
    return (f.label, f.is_conj, f.derivs, f.charges, f.dynkin[2:], f.comm) == ("D" * order + b.label, b.is_conj, order, b.charges, b.dynkin[2:], b.comm)


def options(g, name, order):
    b = meant(g, name)
    ways = [(tuple(b.lorentz_irrep),)]
    for _ in range(order):
        ways = [w + (q,) for w in ways for q in labels(*w[-1], b.is_fermion)]
    return Counter(("D" * order + b.label, b.is_conj, f"{w[-1][0]}{w[-1][1]}" + b.dynkin[2:]) for w in ways)


def seen(f):
    return (f.label, f.is_conj, f.dynkin)


@contract(P, covers=[H + "deriv_possibilities", H + "parse", H + "parse_hs", H + "proc_field", H + "proc_deriv", H + "proc_term", H + "proc_sum", H + "is_field", H + "is_deriv", H + "is_term", H + "is_sum", H + "is_number", H + "FIELD_LOOKUP"],
          mode="conc", runs=150, gsecs=25)
def parsed(g):
    """A series is read as the list of the field contents of its terms, with the
    derivatives acting in every way, on fields of every Lorentz label they can have."""
    import sympy

    hs = g.mod("tensormethod.hs")
    terms, ex = series(g, hs, "t", g.int("terms", 1, 4))
    g.assume(all(c != 0 for c in terms.values()))
    whole = sympy.Add(*ex)
    given = whole if isinstance(whole, sympy.Add) and not g.bool("as a list") else list(sympy.Add.make_args(whole))
    want, cost = Counter(), 0
    for (m, n), c in terms.items():
        for ways in spread(dict(m), n):
            opts = [options(g, s, o) for s, o in ways]
            for pick in itertools.product(*opts):
                k = 1
                for p, o in zip(pick, opts):
                    k *= o[p]
                want[tuple(sorted(pick))] += k
    spreads = [tuple(sorted((s, o) for s, o in w)) for (m, n) in terms for w in spread(dict(m), n)]
    g.assume(len(spreads) == len(set(spreads)))
    got = g.fn(H + "parse")(given)
    g.ensure("contents", Counter(tuple(sorted(seen(f) for f in fs)) for fs in got) == want)
    g.ensure("no duplicates lost or made", len(got) == sum(want.values()))
    for fs in got[:20]:
        for f in fs:
            g.ensure("of the fields meant", any(is_like(g, f, s, f.derivs) for s in NAMES))


@contract(P, covers=[H + "FIELD_LOOKUP"], mode="conc", exhaustive=True)
def symbols(g):
    """Every symbol of the series stands for its own field or its conjugate."""
    hs = g.mod("tensormethod.hs")
    look = g.fn(H + "FIELD_LOOKUP")
    g.ensure("all", len(look) == len(NAMES))
    name = g.pick("symbol", NAMES)
    f = look[getattr(hs, name)(hs.X)]
    b = meant(g, name)
    g.ensure("field", f == b and seen(f) == seen(b) and f.charges == b.charges)


@contract(P, covers=[D + "remove_unwanted_deriv_structures"], secs=60, runs=200)
def one_derivative_each(g):
    """Of any number of field contents those stay, in order, in which no field has more
    than one derivative, and derivatives only of labels (1,1), (1,0) and (0,1)."""
    w = g.pick("fields", [0, 1, 2] if g.symbolic else [0, 1, 2, 3, 4])
    us, ds, ns = ([g.ufun(f"{x}{j}", "int", 0, 3) for j in range(w)] for x in "udn")

    class F:
        def __init__(self, j, k):
            self.derivs, self.lorentz_irrep = ns[j](k), (us[j](k), ds[j](k))
            self.dynkin_ints = self.lorentz_irrep + (0, 0, 0)

    items = {}

    def item(k):
        return [F(j, k) for j in range(w)]

    def fine(fs):
        out = []
        for f in fs:
            u, d = f.lorentz_irrep
            lab = g.any([g.all([u == a, d == b]) for a, b in ((1, 1), (1, 0), (0, 1))])
            out.append(g.any([f.derivs == 0, g.all([f.derivs == 1, lab])]))
        return g.all(out)

    xs = g.seq("contents", item)
    at = (lambda k: xs.at(k)) if hasattr(xs, "at") else None
    g.loop("remove_unwanted_deriv_structures", g.collect(lambda k: at(k), lambda k: fine(at(k))))
    out = g.fn(D + "remove_unwanted_deriv_structures")(xs)
    g.each("kept", out, xs, p=fine)


class Invs:
    """A list of invariants, known by its length."""

    def __init__(self, r, n):
        self.r, self.n = r, n

    def vx_len(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def __bool__(self):
        return bool(self.n > 0)


@contract(P, covers=[D + "keep_longest_invariants"], mode="sym", secs=60)
def longest(g):
    """Of any number of field contents the invariants of one that has most of them."""
    import z3
    from vx.core import SBool, SNum, ctx, znum
    from vx.loops import Values
    from vx.seq import SymSeq

    I = z3.IntSort()
    L, Mx = z3.Function("len", I, I), z3.Function("most", I, I)
    q = z3.Int("q")
    c = ctx()
    c.add(z3.ForAll([q], L(q) >= 0, patterns=[L(q)]))
    c.add(Mx(0) == 0)
    c.add(z3.ForAll([q], z3.Implies(q >= 0, Mx(q + 1) == z3.If(L(q) > Mx(q), L(q), Mx(q))), patterns=[Mx(q + 1)]))
    n = g.int("n", 0)
    xs = SymSeq(n, lambda k: [k], "contents")
    g.callee(D + "invariants", lambda k: Invs(k, SNum(L(znum(k)))))

    def some(k):
        if bool(SBool(Mx(znum(k)) == 0)):
            return None
        r = SNum(c.fresh(I, "r"))
        return Invs(r, SNum(L(r.e)))

    def good(k, v):
        k = znum(k)
        if v is None:
            return SBool(Mx(k) == 0)
        return SBool(z3.And(Mx(k) > 0, znum(v.r) >= 0, znum(v.r) < k, L(znum(v.r)) == Mx(k)))

    def bound(k):
        return SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < znum(k)), L(q) <= Mx(znum(k))), patterns=[L(q)]))

    g.loop("keep_longest_invariants",
           Values(lambda k: SNum(c.fresh(I, "m")), lambda k, v: SBool(znum(v) == Mx(znum(k))), (int, SNum)),
           Values(some, good, (type(None), Invs)), fact=bound)
    out = g.fn(D + "keep_longest_invariants")(xs)
    if isinstance(out, list):
        g.ensure("none has any", len(out) == 0)
        g.ensure("none has any: all are empty", SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.e), L(q) <= 0), patterns=[L(q)])))
    else:
        g.ensure("of one of them", SBool(z3.And(znum(out.r) >= 0, znum(out.r) < n.e)))
        g.ensure("a longest one", SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.e), L(q) <= L(znum(out.r))), patterns=[L(q)])))


@contract(P, covers=[D + "keep_longest_invariants"], mode="conc", runs=300)
def longest_of_lists(g):
    """The same for lists as they are."""
    n = g.int("n", 0, 6)
    lens = [g.int(f"len{k}", 0, 3) for k in range(n)]
    xs = [[f"f{k}", "x"] for k in range(n)]
    g.callee(D + "invariants", lambda a, b: [(a, j) for j in range(lens[int(a[1:])])])
    out = g.fn(D + "keep_longest_invariants")(xs)
    g.ensure("a longest one", out in [[(f"f{k}", j) for j in range(lens[k])] for k in range(n)] + [[]] and len(out) == max(lens, default=0))


@contract(P, covers=[D + "label_operators", D + "longest_deriv_invariants"], secs=40, runs=300)
def labelled(g):
    """Every operator of a structure gets a name of its own: the structure's, with a letter
    if there is more than one, in order."""
    n = g.pick("structures", [0, 1, 2, 3])
    lens = [g.pick(f"len{k}", [0, 1, 2, 3, 26], quick=4 if g.symbolic else None) for k in range(n)]
    names = [str(k + 1) + g.pick(f"letter{k}", ["", "x"] if k < 2 else [""]) for k in range(n)]
    given = {a: [(a, j) for j in range(m)] for a, m in zip(names, lens)}
    out = g.fn(D + "label_operators")(given)
    want = {}
    for a, ops in given.items():
        for j, op in enumerate(ops):
            want[a if len(ops) == 1 else a + ascii_lowercase[j]] = op
    g.ensure("names", dict(out) == want and list(out) == list(want))
    # structure by structure
    g.callee(D + "parse", lambda xs: [("parsed", *xs)])
    g.callee(D + "remove_unwanted_deriv_structures", lambda xs: [("wanted", *xs)])
    g.callee(D + "keep_longest_invariants", lambda xs: [("longest", *xs)])
    got = g.fn(D + "longest_deriv_invariants")({a: "H" + a for a in names})
    g.ensure("each structure", got == {a: [("longest", ("wanted", ("parsed", "H" + a)))] for a in names})


@contract(P, covers=[D + "longest_deriv_invariants", D + "keep_longest_invariants", D + "remove_unwanted_deriv_structures", H + "parse", H + "deriv_possibilities"], mode="conc", exhaustive=True, gsecs=30)
def structures(g):
    """The operators with derivatives of a structure of the catalogue: its fields, one
    derivative to a field at most, as many as any such content has."""
    names = g.fn(D + "deriv_operator_names")
    small = [k for k in names if k in ("1", "2", "3", "4", "6", "11", "15", "17", "19", "21", "22")]
    k = g.pick("structure", small)
    import sympy

    hs = g.mod("tensormethod.hs")
    out = g.fn(D + "longest_deriv_invariants")({k: names[k]})
    g.ensure("named", list(out) == [k])
    m, n = {}, 0
    for x in names[k].args:
        b, p = (x.args if isinstance(x, sympy.Pow) else (x, 1))
        if b == sympy.Symbol("D"):
            n = int(p)
        else:
            m[str(b.func)] = int(p)
    base = Counter({(meant(g, s).label, meant(g, s).is_conj): p for s, p in m.items()})
    g.ensure("some", len(out[k]) > 0)
    for op in out[k]:
        fs = op.fields
        g.ensure("fields", Counter((f.label[f.derivs:], f.is_conj) for f in fs) == base)
        g.ensure("derivatives", sum(f.derivs for f in fs) == n and all(f.derivs <= 1 for f in fs))
        g.ensure("isospin contracted", all(i.index_type != "Isospin" for i in op.free_indices))
    most = 0
    for ways in spread(m, n):
        if any(o > 1 for _, o in ways):
            continue
        for pick in itertools.product(*[[q for q in options(g, s, o) if o == 0 or q[2][:2] in ("11", "10", "01")] for s, o in ways]):
            fs = []
            for (s, o), q in zip(ways, pick):
                f = meant(g, s)
                fs.append(g.fn("tensormethod.core.D")(f, q[2][:2]) if o else f)
            most = max(most, len(g.fn("tensormethod.contract.invariants")(*fs)))
    g.ensure("as many as there can be", len(out[k]) == most)
