"""Invariants of a list of fields."""

import random
from collections import Counter

from contracts import numeric
from contracts.groups import products
from contracts.lib import stat
from vx.harness import contract

LEVEL = "proof"
P = "C08"
K = "tensormethod.contract."
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.contract")
ASSUMES = (
    "clean_operators/remove_relabellings proved against stand-in operators whose canonical forms and relabellings are free, for lists of up to 4 (5 thorough)",
    "sympy's canonical forms (checked numerically on the bounded runs)",
    "colour contractions of up to three pairs or three raised or lowered indices",
)
DYN = ["10001", "10010", "10101", "01001", "00001", "00100", "00010", "10000", "00002"]


class Key:
    """A canonical form: equal when its number is."""

    def __init__(self, n, zero):
        self.n, self.zero = n, zero

    def __bool__(self):
        return not self.zero

    def __eq__(self, o):
        return bool(self.n == o.n)

    def __hash__(self):
        return 1


class Op:
    def __init__(self, key, plain):
        self.key, self.plain = key, plain

    def simplify(self, fill=False):
        return self.key if fill else self.plain


@contract(P, covers=[K + "clean_operators"], world="ghost", secs=40)
def clean(g):
    """clean_operators keeps, in order, the first operator of each non-vanishing
    canonical form (free indices relabelled), and nothing else."""
    n = g.pick("n", [0, 1, 2, 3, 4, 5] if g.thorough else [0, 1, 2, 3, 4])
    ops = [Op(Key(g.int(f"k{j}", 0, n), bool(g.bool(f"z{j}"))), object()) for j in range(n)]
    out = g.fn(K + "clean_operators")(ops)
    want = []
    for o in ops:
        if not o.key.zero and not any(o.key == w.key for w in want):
            want.append(o)
    g.ensure("the first of each", [id(o) for o in out] == [id(o) for o in want])


@contract(P, covers=[K + "is_identity_mapping", K + "exists_identity_mapping"], world="ghost", secs=40)
def identity_mapping(g):
    """A relabelling leaves an operator alone exactly when each replaced index and its
    replacement belong to copies of one field; one such relabelling is enough."""
    from_ = ["p", "q"]

    class I:
        def __init__(self, n):
            self.n = n

        def __neg__(self):
            return I(self.n)

        def __eq__(self, o):
            return self.n == o.n

        def __hash__(self):
            return 3

    class O:
        duplicate_fields = {"A": [I(0), I(1)], "B": [I(2), I(3), I(4)]}

    grp = lambda k: 0 if k < 2 else 1 if k < 5 else k
    maps, good = [], []
    for m in range(g.pick("maps", [0, 1, 2])):
        mp, ok = [], True
        for k in range(g.pick(f"len{m}", [0, 1, 2])):
            a, b = g.pick(f"a{m}{k}", [0, 2, 5]), g.pick(f"b{m}{k}", [1, 3, 7])
            mp.append((I(a), I(b)))
            ok = ok and grp(a) == grp(b) and a < 5 and b < 5
        maps.append(mp)
        good.append(ok)
        g.ensure("one", g.fn(K + "is_identity_mapping")(mp, O) == ok)
    g.ensure("any", g.fn(K + "exists_identity_mapping")(maps, O) == any(good))


@contract(P, covers=[K + "extract_relabellings"], mode="conc", runs=200)
def relabellings(g):
    """Each relabelling of one list of pairs of indices carries it onto the other."""
    Index, eps = g.fn(M + "Index"), g.fn(M + "eps")
    n = g.int("pairs", 1, 3)
    names = [f"-i{k}" for k in range(2 * n)]

    def pairing(nm):
        rest, out = list(names), []
        while rest:
            a = rest.pop(0)
            b = rest.pop(g.int(f"{nm}{len(rest)}", 0, len(rest) - 1))
            out.append(eps(a + " " + b))
        return out

    x, y = pairing("x"), pairing("y")
    res = g.fn(K + "extract_relabellings")(x, y)
    g.ensure("one per order", len(res) == [1, 1, 2, 6][n])
    key = lambda t: frozenset(frozenset(str(i) for i in e) for e in t)
    for m in res:
        d = {str(a): str(b) for a, b in m}
        g.ensure("no index twice", len(d) == len(m))
        moved = key([[d.get(str(i), str(i)) for i in e.indices] for e in x])
        g.ensure("carried over", moved == key([[str(i) for i in e.indices] for e in y]))


def some_fields(g, hyper=True):
    """Two to four fields, copies allowed, the last one chosen to allow a singlet."""
    F = g.fn(M + "Field")
    n = g.int("n", 2, 4)
    pool = []
    for k in range(3):
        d = g.pick(f"d{k}", DYN)
        pool.append(F("ABC"[k], d, comm=stat(g, d), charges={"y": k + 1, "3b": g.pick(f"b{k}", [0, 0, 1, -2])}))
    fs = [g.pick(f"f{k}", pool) for k in range(n - 1)]
    ps = [p for p in g.fn(M + "decompose_product")(*fs)] if n > 2 else fs
    p = ps[g.int("irrep", 0, 300) % len(ps)]
    d = p.dynkin_ints
    g.assume(sum(d) <= (6 if g.thorough else 5))
    last = "".join(map(str, d[:2] + (d[3], d[2]) + d[4:]))
    off = g.int("off", 0, 9) == 0
    fs.append(F("Z", last, comm=stat(g, d), charges={"y": -p.y + off}))
    g.assume(d[2] * d[3] <= 1)
    nc = sum(f.dynkin_ints[2] for f in fs), sum(f.dynkin_ints[3] for f in fs)
    g.assume(nc[0] == nc[1] and nc[0] <= 3 or nc in ((3, 0), (0, 3)))
    j = g.int("where", 0, n - 1)
    fs[j], fs[-1] = fs[-1], fs[j]
    return fs, off


@contract(P, covers=[K + "unsimplified_invariants", K + "construct_operators", K + "contract_su2"], mode="conc", runs=250, gsecs=20)
def span(g):
    """Distinct fields: the invariants contain each field once, are invariant under
    every group, and span exactly the singlets of the tensor product; there is none
    when the hypercharges do not cancel."""
    fs, off = some_fields(g)
    labels = [f.label for f in fs]
    F = g.fn(M + "Field")
    fs = [F("ABCDE"[k], f.dynkin, comm=f.comm, charges=f.charges) for k, f in enumerate(fs)]
    ops = g.fn(K + "unsimplified_invariants")(*fs)
    want = products([f.dynkin_ints for f in fs])[(0, 0, 0, 0, 0)]
    if off:
        g.ensure("hypercharge", ops == [])
        return
    g.ensure("some", len(ops) > 0)
    rng = random.Random(5)
    for o in ops:
        g.ensure("fields", sorted(t.label for t in o.indexed_fields) == sorted(f.label for f in fs))
        g.ensure("field content", all(t.field.dynkin == f.dynkin for t, f in zip(sorted(o.indexed_fields, key=lambda t: t.label), fs)))
        g.ensure("well formed", not numeric.well_formed(o))
        g.ensure("no free index", not o.free_indices)
    for o in (ops[0], ops[-1]):
        g.ensure("invariant", numeric.is_invariant(o, rng, 1))
    g.ensure("span", numeric.span_rank(ops, rng) == want)


@contract(P, covers=[K + "unsimplified_invariants", K + "construct_operators", K + "contract_su2"], mode="conc", exhaustive=True, gsecs=40)
def span_of_many(g):
    """The invariants span the singlets for more fields too: six doublets, triplets,
    fermions of both chiralities, three quarks and their conjugates."""
    ds = g.pick("fields", [["00001"] * 6, ["00002"] * 4, ["00002", "00001"] * 2 + ["00002"], ["10000"] * 4 + ["01000"] * 2, ["00101"] * 2 + ["00011"] * 2,
                           ["10001"] * 4, ["00003", "00001", "00002", "00002"], ["00100"] * 2 + ["00010"] * 2 + ["00001"] * 4])
    F = g.fn(M + "Field")
    fs = [F("ABCDEFGH"[k], d, comm=stat(g, d), charges={"y": k - len(ds) // 2 if k else -sum(j - len(ds) // 2 for j in range(1, len(ds))), "3b": 1}) for k, d in enumerate(ds)]
    ops = g.fn(K + "unsimplified_invariants")(*fs)
    rng = random.Random(5)
    g.ensure("fields", all(sorted(t.label for t in o.indexed_fields) == [f.label for f in fs] for o in ops))
    g.ensure("span", numeric.span_rank(ops, rng) == products([f.dynkin_ints for f in fs])[(0, 0, 0, 0, 0)])


@contract(P, covers=[K + "clean_operators", K + "invariants", M + "Operator.simplify"], mode="conc", runs=200, gsecs=20)
def clean_real(g):
    """Copies of a field allowed: cleaning keeps a sublist that spans the same space
    (with the copies commuting or anticommuting as they do), without two operators
    of one canonical form, and drops only what vanishes or repeats."""
    fs, off = some_fields(g)
    g.assume(not off)
    g.assume(sum(sum(f.dynkin_ints) for f in fs) <= (12 if g.thorough else 8))
    ops = g.fn(K + "unsimplified_invariants")(*fs)
    out = g.fn(K + "clean_operators")(ops)
    ids = [id(o) for o in ops]
    g.ensure("sublist", [i for i in ids if i in {id(o) for o in out}] == [id(o) for o in out])
    keys = [o.simplify(fill=True) for o in out]
    g.ensure("no repetition", all(keys[i] != keys[j] for i in range(len(keys)) for j in range(i)) and all(k != 0 for k in keys))
    comm = {f.label: int(f.comm == g.fn('tensormethod.core.FERMI')) for f in fs}
    rng = random.Random(3)
    samples = [numeric.draw(ops[0], rng) for _ in range(len(ops) + 6)]
    row = lambda o: [numeric.symmetrised(o, s, comm) for s in samples]
    rows = {id(o): row(o) for o in ops}
    g.ensure("same span", numeric.rank([rows[id(o)] for o in out]) == numeric.rank(list(rows.values())))
    dropped = [o for o in ops if id(o) not in {id(x) for x in out}]
    for o in dropped:
        r = rows[id(o)]
        g.ensure("dropped: vanishes or repeats", not any(r) or any(
            r == rows[id(x)] or [-v % numeric.PR for v in r] == rows[id(x)] for x in out))
    inv = g.fn(K + "invariants")(*fs, ignore=[], remove_relabellings_=False)
    g.ensure("invariants", len(inv) == len(out))


@contract(P, covers=[K + "remove_relabellings", K + "invariants", K + "compare_singlets", M + "Operator.duplicate_fields"], mode="conc", runs=500, gsecs=20)
def isospin_invariants(g):
    """Isospin structures of a list of fields with copies: the invariants contain the
    fields, have no free isospin index, and their images under exchanging copies
    span what all contractions span."""
    F = g.fn(M + "Field")
    n = g.int("n", 2, 6)
    pool = [F("A", g.pick("dA", ["10001", "00001"]), charges={"y": 0}), F("B", "00001", charges={"y": 0}), F("C", g.pick("dC", ["10000", "00002", "10001"]), charges={"y": 0})]
    fs = [g.pick(f"f{k}", pool) for k in range(n)]
    iso = sum(f.dynkin_ints[4] for f in fs)
    g.assume(iso % 2 == 0 and iso <= (6 if g.thorough else 5))
    un = g.fn(K + "unsimplified_invariants")(*fs, ignore=["u", "d", "c"])
    inv = g.fn(K + "invariants")(*fs, ignore=["u", "d", "c"])
    g.assume(un)
    numeric.ONLY[0] = {"Isospin"}
    try:
        rng = random.Random(4)
        for o in inv:
            g.ensure("fields", Counter(t.label for t in o.indexed_fields) == Counter(f.label for f in fs))
            g.ensure("no free isospin index", not [i for i in o.free_indices if i.index_type == "Isospin"])
        g.ensure("not more than before", len(inv) <= len(un))
        # copies that differ in nothing else are symmetrised, the others may be exchanged
        comm = {f.label: 0 for f in fs if not f.dynkin_ints[0]}
        samples = [numeric.draw(un[0], rng) for _ in range(len(un) + 6)]
        rows = lambda o: list(map(list, zip(*[numeric.images(o, s, comm) for s in samples])))
        alls = numeric.rank([r for o in un for r in rows(o)])
        kept = numeric.rank([r for o in inv for r in rows(o)])
        g.ensure("same span", kept == alls)
    finally:
        numeric.ONLY[0] = None


@contract(P, covers=[K + "remove_relabellings"], mode="conc", exhaustive=True)
def repeated(g):
    """A repeated operator is dropped."""
    sm = g.mod("tensormethod.sm")
    case = g.pick("case", [("L", "L", "H", "H"), ("L", "L", "Q", "db", "H"), ("Q", "ub", "H")])
    ops = g.fn(K + "invariants")(*[getattr(sm, n) for n in case], ignore=["u", "d", "c"])
    out = g.fn(K + "remove_relabellings")(ops + ops[:1])
    g.ensure("dropped", [id(o) for o in out] == [id(o) for o in ops])


@contract(P, covers=[K + "invariants", K + "unsimplified_invariants", K + "construct_operators"], mode="conc", exhaustive=True, gsecs=40)
def ignored(g):
    """The indices of the ignored types stay free, as many as the fields have, and none
    of the others do; invariants ignore all but isospin when not told."""
    sm = g.mod("tensormethod.sm")
    fs = [getattr(sm, n) for n in g.pick("fields", [("H", "L", "eb"), ("L", "L", "H", "H"), ("Q", "Q", "Q", "L")][: 3 if g.thorough else 2])]
    if g.bool("conjugates"):
        fs = [f.conj for f in fs]
    if sum(f.y for f in fs) and len(fs) == 3:
        fs[0] = fs[0].conj
    f = g.fn(K + g.pick("function", ["invariants", "unsimplified_invariants"]))
    some = [x for k, x in enumerate("udci") if g.pick("ignore " + x, [True, False])]
    told = g.pick("told", [True, False])
    if told:
        # relabellings are for isospin alone
        kw = {"remove_relabellings_": False} if f.__name__ == "invariants" and {"u", "d", "c"} - set(some) else {}
        ops = f(*fs, ignore=list(some), **kw)
    else:
        g.assume(some == (["u", "d", "c"] if f.__name__ == "invariants" else []))
        ops = f(*fs)
    names = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin"}
    want = Counter()
    for q in fs:
        for t, k in (("u", (0,)), ("d", (1,)), ("c", (2, 3)), ("i", (4,))):
            if t in some:
                want[names[t]] += sum(q.dynkin_ints[x] for x in k)
    want = +want
    g.ensure("some", len(ops) > 0)
    for o in ops:
        g.ensure("left free", Counter(i.index_type for i in o.free_indices if i.index_type != "Generation") == want)


# operators of any number ----------------------------------------------------------


class At:
    """The operator at a position."""

    def __init__(self, k):
        self.k = k

    @property
    def duplicate_fields(self):
        return self


@contract(P, covers=[K + "remove_relabellings"], secs=60, runs=300)
def any_number(g):
    """Of any number of operators, remove_relabellings leaves out exactly those that some
    earlier one can be relabelled into, and keeps the order."""
    if not g.symbolic:
        n = g.int("n", 0, 12)
        rel = {(i, j): g.int(f"rel{i},{j}", 0, 5) == 0 for j in range(n) for i in range(j)}
        g.callee(K + "compare_singlets", lambda a, b: [rel[a.k, b.k]] if a.k < b.k else [True])
        g.callee(K + "exists_identity_mapping", lambda m, op: m[0])
        ops = [At(k) for k in range(n)]
        out = g.fn(K + "remove_relabellings")(list(ops))
        # every class is its first member when the relation is an equivalence
        cls = {}
        for j in range(n):
            cls[j] = next((cls[i] for i in range(j) if rel[i, j]), j)
        rel = {(i, j): cls[i] == cls[j] for i, j in rel}
        out = g.fn(K + "remove_relabellings")(list(ops))
        g.ensure("the first of each", [o.k for o in out] == [k for k in range(n) if cls[k] == k])
        return
    import z3
    from vx.core import SBool, SNum, ctx, znum
    from vx.loops import SymSet, Values
    from vx.seq import SymSeq

    I = z3.IntSort()
    R = z3.Function("first", I, I)
    p, q = z3.Ints("p q")
    c = ctx()
    c.add(z3.ForAll([p], z3.Implies(p >= 0, z3.And(R(p) >= 0, R(p) <= p, R(R(p)) == R(p))), patterns=[R(p)]))
    n = g.int("n", 0)
    ops = SymSeq(n, lambda k: At(k), "ops")
    g.callee(K + "compare_singlets", lambda a, b: (a, b))
    g.callee(K + "exists_identity_mapping", lambda m, op: SBool(R(m[0].k.e) == R(m[1].k.e)))

    def make(k):
        return SymSet(c.fresh(z3.ArraySort(I, z3.BoolSort()), "set"))

    def has(s, e):
        return s.has(e) if isinstance(s, SymSet) else z3.BoolVal(False)

    def upto(done):
        def inv(k, s):
            if isinstance(s, set) and s:
                return False
            k = znum(k)
            return SBool(z3.ForAll([q], has(s, q) == z3.And(0 <= q, q < n.e, R(q) < q, done(q, k))))

        return inv

    inner = lambda q, k: z3.Or(R(q) < g.outer().e, z3.And(R(q) == g.outer().e, q < g.outer().e + 1 + k))
    f = "contract:remove_relabellings"
    g.loop(f, Values(make, upto(lambda q, k: R(q) < k), (SymSet, set)), depth=0)
    g.loop(f, Values(make, upto(inner), (SymSet, set)), depth=1)
    out = g.fn(K + "remove_relabellings")(ops)
    g.each("kept: the first of each", out, ops, lambda o: o, lambda o: SBool(R(o.k.e) == o.k.e))


class Form:
    """A canonical form: the position of the first operator that has it."""

    def __init__(self, r, zero):
        self.vx_int, self.zero = r, zero

    def __bool__(self):
        return not bool(self.zero)


@contract(P, covers=[K + "clean_operators"], mode="sym", secs=60)
def any_number_cleaned(g):
    """clean_operators on any number of operators: it keeps exactly the first operator of
    each canonical form that does not vanish, in order."""
    import z3
    from vx.core import SBool, SNum, ctx, znum
    from vx.loops import SymSet, Values
    from vx.seq import SymSeq

    I = z3.IntSort()
    R, Z = z3.Function("first", I, I), z3.Function("vanishes", I, z3.BoolSort())
    p, q = z3.Ints("p q")
    c = ctx()
    c.add(z3.ForAll([p], z3.Implies(p >= 0, z3.And(R(p) >= 0, R(p) <= p, R(R(p)) == R(p))), patterns=[R(p)]))
    n = g.int("n", 0)

    class Op_:
        def __init__(self, k):
            self.k = k

        def simplify(self, fill=False):
            if not fill:
                raise AttributeError("forms without the free indices", obj=self)
            return Form(SNum(R(self.k.e)), SBool(Z(R(self.k.e))))

    ops = SymSeq(n, Op_, "ops")
    first = lambda k: SBool(z3.And(R(znum(k)) == znum(k), z3.Not(Z(znum(k)))))

    def make(k):
        return SymSet(c.fresh(z3.ArraySort(I, z3.BoolSort()), "seen"))

    def inv(k, s):
        if not isinstance(s, SymSet):
            return not s and (k == 0)
        return SBool(z3.ForAll([q], s.has(q) == z3.And(0 <= q, q < znum(k), R(q) == q, z3.Not(Z(q)))))

    g.loop("contract:clean_operators", Values(make, inv, (SymSet, set)), g.collect(lambda k: ops.at(k), first))
    out = g.fn(K + "clean_operators")(ops)
    g.each("the first of each form", out, ops, lambda o: o, lambda o: first(o.k))


class Irrep:
    def __init__(self, k, single):
        self.k, self.is_singlet = k, single
        self.dynkin = ("dynkin", k)

    def walked(self):
        return ("tree", self.k)


@contract(P, covers=[K + "unsimplified_invariants", K + "invariants"], secs=60)
def put_together(g):
    """Whatever the products, contractions and operators are: the invariants are those of
    every singlet in the product, their colour contracted unless it is ignored, cleaned,
    and without relabellings unless told otherwise."""
    n = g.pick("irreps", [2, 1, 0, 3, 12], quick=3)
    prod = [Irrep(k, g.bool(f"singlet{k}")) for k in range(n)]
    cnt = [g.pick(f"ops{k}", [0, 1, 2]) for k in range(n)]
    ign = [x for x in "udci" if g.pick("ignore " + x, [0, 1])]
    told = []
    g.callee(K + "decompose_product", lambda *fs: told.append(fs) or list(prod))
    g.callee(K + "construct_operators", lambda expr_tree, _stack=None, ignore=(): [("op", expr_tree, j, tuple(ignore)) for j in range(cnt[expr_tree[1]])])
    g.callee(K + "colour_singlets", lambda operators, overcomplete=False: [("colour", o, c) for o in operators for c in range(2)])
    want = []
    for p in prod:
        if bool(p.is_singlet):
            ops = [("op", ("tree", p.k), j, tuple(ign)) for j in range(cnt[p.k])]
            want += ops if "c" in ign else [("colour", o, c) for o in ops for c in range(2)]
    fs = ("a", "b", "c")
    got = g.fn(K + "unsimplified_invariants")(*fs, ignore=list(ign))
    g.ensure("of every singlet", list(got) == want)
    g.ensure("of these fields", told == [fs])
    g.callee(K + "clean_operators", lambda operators: [("clean", *operators)])
    g.callee(K + "remove_relabellings", lambda operators: [("apart", *operators)])
    keep = g.pick("keep relabellings", [0, 1])
    got = g.fn(K + "invariants")(*fs, ignore=list(ign), remove_relabellings_=not keep)
    g.ensure("cleaned", got == ([("clean", *want)] if keep else [("apart", ("clean", *want))]))


@contract(P, covers=[K + "construct_operators"], secs=60)
def built_up(g):
    """Operators are built along the tree of a product from its first field: each further
    field is contracted with every operator so far into the irrep the tree gives, with
    what is ignored; all results are kept, and building again starts afresh."""
    n = g.pick("fields", [1, 2, 3, 4])
    Prod = g.fn(M + "Prod")
    ign = g.pick("ignore", [[], ["c"], ["u", "d", "c"]])
    num = {k: g.pick(f"ways{k}", [1, 2, 0]) for k in range(1, n)}

    def ways(left, right, out, ignore=()):
        return [("both", left, right, out, w, tuple(ignore)) for w in range(num[right[1]])]

    g.callee(K + "contract_su2", ways)
    irreps = [Irrep(k, False) for k in range(n)]
    tree, want = ("field", 0), [("field", 0)]
    for k in range(1, n):
        tree = Prod(irreps[k], tree, ("field", k))
        want = [("both", x, ("field", k), irreps[k].dynkin, w, tuple(ign)) for x in want for w in range(num[k])]
    for _ in range(2):
        got = g.fn(K + "construct_operators")(tree, ignore=list(ign))
        g.ensure("every way", list(got) == want)


@contract(P, covers=[K + "compare_singlets"], secs=40)
def compared(g):
    """The relabellings of one operator into another: nothing if they are the same, else
    every choice of one for each kind of structure, one after another."""
    n = g.pick("kinds", [1, 2, 3, 4], quick=3)
    same = g.bool("same")

    class Core:
        def __eq__(self, other):
            return same

        def __hash__(self):
            return 1

    class Op:
        def __init__(self, name):
            self.nocoeff, self.name = Core(), name

        def by_structures(self):
            return [[(self.name, k)] for k in range(n)]

    num = [g.pick(f"n{k}", [1, 2, 3]) for k in range(n)]
    pairs = lambda k: [[(("i", k, j), ("j", k, j, m)) for m in range(j)] for j in range(num[k])]

    def rel(x, y):
        assert x[0][0] == "left" and y[0][0] == "right" and x[0][1] == y[0][1]
        return pairs(x[0][1])

    g.callee(K + "extract_relabellings", rel)
    got = g.fn(K + "compare_singlets")(Op("left"), Op("right"))
    if bool(same):
        g.ensure("nothing to do", list(got) == [[]])
        return
    want = [[]]
    for k in range(n):
        want = [w + p for w in want for p in pairs(k)]
    g.ensure("every choice", [list(x) for x in got] == want)


class Ix:
    """An index that is its number, sorted by a free value."""

    def __init__(self, k, at):
        self.k, self.at = k, at

    def __eq__(self, other):
        return isinstance(other, Ix) and self.k == other.k

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self.k

    def __lt__(self, other):
        return self.at < other.at

    def __gt__(self, other):
        return self.at > other.at


class Two:
    def __init__(self, a, b):
        self.indices = [a, b]


@contract(P, covers=[K + "extract_relabellings"], secs=60)
def relabellings_in_any_order(g):
    """The same whatever the names are, in whichever order they sort: there is a relabelling
    for every order of the pairs, and each carries the first pairs onto the second."""
    n = g.pick("pairs", [1, 2, 3])
    ix = [Ix(k, g.int(f"at{k}", 0, 99)) for k in range(2 * n)]
    g.assume(g.all([g.neg(a.at == b.at) for j, a in enumerate(ix) for b in ix[:j]]))

    def pairing(nm):
        rest, out = list(ix), []
        while rest:
            a = rest.pop(0)
            out.append((a, rest.pop(g.pick(f"{nm}{len(rest)}", range(len(rest))))))
        return out

    x, y = pairing("x") if n < 3 else list(zip(ix[::2], ix[1::2])), pairing("y")
    if n < 3 and g.pick("turned", [0, 1]):
        y = [(b, a) for a, b in y]
    res = g.fn(K + "extract_relabellings")([Two(*p) for p in x], [Two(*p) for p in y])
    g.ensure("one per order", len(res) == [1, 1, 2, 6][n])
    want = {frozenset(p) for p in y}
    for m in res:
        d = dict(m)
        g.ensure("no index twice", len(d) == len(m))
        g.ensure("carried over", {frozenset(d.get(i, i) for i in p) for p in x} == want)
