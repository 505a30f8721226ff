"""Products of fields."""

from collections import Counter

from contracts.groups import product, products, dim
from contracts.lib import field, raises
from vx.harness import contract

LEVEL = "proof"
P = "C05"
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.contract")
ASSUMES = (
    "basisgen's tensor product of irreps (compared with an independent oracle on the bounded runs)",
    "Dynkin labels of the factors add to at most 9 (one character per label)",
)
DYN = ["00000", "10001", "01010", "00110", "10011", "00002", "20000", "10100", "01001"]


def two(g, keys=("y", "3b", "l")):
    F = g.fn(M + "Field")
    out = []
    for n in "ab":
        ch = {k: g.real(f"{n}_{k}") for k in keys}
        d = g.pick(n + "_dyn", DYN if n == "a" else DYN[1:6])
        out.append((F(n + g.text(n + "_label", no="†(),: \\"), d, charges=ch, is_conj=g.bool(n + "_conj"), latex="x"), d, ch))
    return out


@contract(P, covers=[M + "Field.__mul__"], world="ghost")
def charges_add(g):
    """Every irrep of the product of two fields has, for each charge, the sum of the
    two, whatever the charges, remembers its two factors and is no conjugate; the
    irreps and multiplicities are those of the tensor product."""
    (a, da, ca), (b, db, cb) = two(g)
    prod = a * b
    want = product(tuple(map(int, da)), tuple(map(int, db)))
    g.ensure("irreps", Counter({p.dynkin: p.multiplicity for p in prod}) == {"".join(map(str, k)): n for k, n in want.items()})
    g.ensure("each once", len(prod) == len(want))
    for p in prod:
        g.ensure("charges", g.all([len(p.charges) == 3] + [p.charges[k] == ca[k] + cb[k] for k in ca]))
        g.ensure("history", p.history.left is a and p.history.right is b)
        g.ensure("label", p.label == a.label_with_dagger + b.label_with_dagger)


@contract(P, covers=[M + "Field.__mul__"], world="ghost")
def different_charges(g):
    """Fields with different sets of charges are not multiplied."""
    F = g.fn(M + "Field")
    a = F("A", "10001", charges={"y": g.real("ya"), "l": g.real("la")}, latex="x")
    b = F("B", "10001", charges={"y": g.real("yb")}, latex="x")
    g.expect("refused", AssertionError, lambda: a * b)
    g.expect("refused the other way round", AssertionError, lambda: b * a)


@contract(P, covers=[M + "decompose_product"], world="ghost")
def three_charges(g):
    """In a product of three or four fields every irrep has the summed charges."""
    F = g.fn(M + "Field")
    n = g.pick("n", [3, 4])
    ds = ["10001", "10010", "01001", "00101"]
    fs = [F("X%d" % k, ds[k], charges={"y": g.real(f"y{k}"), "3b": g.real(f"b{k}")}, latex="x") for k in range(n)]
    out = g.fn(M + "decompose_product")(*fs)
    g.ensure("some", len(out) > 0)
    for p in out:
        for k in ("y", "3b"):
            t = 0
            for f in fs:
                t = t + f.charges[k]
            g.ensure("charges", p.charges[k] == t)
        leaves, h = [], p
        while getattr(h, "history", None):
            leaves.append(h.history.right)
            h = h.history.left
        leaves.append(h)
        g.ensure("factors", [id(x) for x in leaves[::-1]] == [id(x) for x in fs])


@contract(P, covers=[M + "Field.__mul__"], mode="conc", runs=400, gsecs=40)
def content(g):
    """Irreps and multiplicities of a product against an independent oracle, its
    dimension, and symmetry under exchange of the factors."""
    da = [g.int(f"a{k}", 0, 2) for k in range(5)]
    db = [g.int(f"b{k}", 0, 2) for k in range(5)]
    F = g.fn(M + "Field")
    a = F("A", "".join(map(str, da)), charges={"y": g.real("ya")}, comm=g.int("comm", 0, 1))
    b = F("B", "".join(map(str, db)), charges={"y": g.real("yb")})
    prod, rev = a * b, b * a
    want = product(tuple(da), tuple(db))
    got = Counter()
    for p in prod:
        got[p.dynkin_ints] += p.multiplicity
    g.ensure("oracle", got == want)
    g.ensure("dimension", sum(dim(k) * n for k, n in got.items()) == dim(da) * dim(db))
    g.ensure("commutes", Counter({p.dynkin_ints: p.multiplicity for p in rev}) == got)
    g.ensure("hypercharge", all(p.y == a.y + b.y for p in prod + rev))
    g.ensure("conjugate product", Counter({p.conj.dynkin_ints: p.multiplicity for p in prod}) == Counter({p.dynkin_ints: p.multiplicity for p in a.conj * b.conj}))
    g.ensure("symmetry of labels", all(sum(map(sum, p.symmetry)) == sum(p.dynkin_ints) for p in prod))


@contract(P, covers=[M + "decompose_product", M + "Field.is_singlet", M + "Field.walked"], mode="conc", runs=250, gsecs=30)
def standard_model_products(g):
    """Products of two to four Standard Model fields, octets and vectors: every irrep of the tensor
    product appears, as often as the oracle says; it is a singlet exactly when its
    labels and hypercharge vanish; any order of the factors gives the same irreps."""
    sm = g.mod("tensormethod.sm")
    n = g.int("n", 2, 4)
    fs = []
    for k in range(n):
        f = g.pick(f"f{k}", ["L", "Q", "eb", "ub", "db", "H", "00110", "00112", "11000"])
        f = getattr(sm, f) if len(f) < 5 else g.fn(M + "Field")("X", f, charges={"y": 1, "3b": -2}, latex="x")
        fs.append(f.conj if g.bool(f"c{k}") else f)
    out = g.fn(M + "decompose_product")(*fs)
    got = Counter()
    for p in out:
        w, h = 1, p
        while h.history:
            w *= h.multiplicity
            h = h.history.left
        got[p.dynkin_ints] += w
    g.ensure("oracle", got == products([f.dynkin_ints for f in fs]))
    y = sum(f.y for f in fs)
    for p in out:
        g.ensure("hypercharge", p.y == y)
        g.ensure("3b", p.charges["3b"] == sum(f.charges["3b"] for f in fs))
        g.ensure("singlet", p.is_singlet == (sum(p.dynkin_ints) == 0 and y == 0))
    order = list(range(n))
    for k in range(n):
        j = g.int(f"o{k}", 0, n - 1)
        order[k], order[j] = order[j], order[k]
    again = g.fn(M + "decompose_product")(*[fs[k] for k in order])
    g.ensure("any order", {p.dynkin for p in again} == {p.dynkin for p in out})
    t = out[0].walked()
    leaves = []
    while isinstance(t, tuple):
        leaves.append(t.right)
        t = t.left
    leaves.append(t)
    g.ensure("tree", all(x is y for x, y in zip(leaves[::-1], fs)) and len(leaves) == n)


@contract(P, covers=[M + "Field.mass_dim"], world="ghost")
def mass_dimension(g):
    """Scalars and vectors have dimension one, fermions three halves (any other
    Lorentz labels with an even sum are refused)."""
    f, d = field(g, "f", extra=False, hi=3)
    a, b = f.lorentz_irrep
    if bool(f.is_fermion):
        g.ensure("fermion", f.mass_dim == 1.5)
        g.ensure("odd", (f.dynkin_ints[0] + f.dynkin_ints[1]) % 2 == 1)
    elif bool(g.any([g.all([a == 0, b == 0]), g.all([a == 1, b == 1])])):
        g.ensure("boson", f.mass_dim == 1)
    else:
        g.expect("refused", Exception, lambda: f.mass_dim)
