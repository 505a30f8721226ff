"""Conjugation of fields."""

from contracts.lib import TYPES, BAR, ilabel, same_index, field, charges, raises
from vx.harness import contract

LEVEL = "proof"
P = "C02"
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm")
ASSUMES = (
    "Dynkin labels are five decimal digits; charges are rationals; labels do not contain the dagger",
    "interface of sympy's TensorIndex/Tensor as in vx/ghost_tensor.py; sympy.Rational(x) is exact",
)
SHAPES = ["", "u", "d", "i", "c", "-c", "ui", "dci", "u-ci", "c-c", "ii", "ud", "uci"]


def shape(g, name="shape", shapes=SHAPES):
    """Indices of a concrete shape with free labels."""
    s = g.pick(name, shapes)
    out, k, neg = [], 0, ""
    for ch in s:
        if ch == "-":
            neg = "-"
            continue
        r = g.text(f"{name}{k}", only="0123456789", lo=1)
        out.append((neg, ch, r, neg + ch + r))
        neg, k = "", k + 1
    return out


def dyn(ix):
    q = [("", "u"), ("", "d"), ("", "c"), ("-", "c"), ("", "i")]
    return "".join(str(sum(1 for s, t, *_ in ix if (s, t) == x)) for x in q)


@contract(P, covers=[M + "Field.__init__", M + "Field.conj", M + "Field.label_with_dagger"], world="ghost")
def field_conj(g):
    """conj negates every charge, swaps the two Lorentz and the two colour labels,
    keeps isospin and flips the flag; twice is the identity."""
    f, d = field(g, "f", derivs=g.int("derivs", 0, 3))
    c = f.conj
    g.ensure("charges negated", g.all(c.charges[k] == -f.charges[k] for k in f.charges))
    g.ensure("same charge names", set(c.charges) == set(f.charges))
    g.ensure("dynkin swapped", c.dynkin == d[1] + d[0] + d[3] + d[2] + d[4])
    g.ensure("flag flipped", g.iff(c.is_conj, g.neg(f.is_conj)))
    g.ensure("label kept", c.label == f.label)
    g.ensure("comm, nf, latex, derivs kept", g.all([c.comm == f.comm, c.nf == f.nf, c.latex == f.latex, c.derivs == f.derivs]))
    f.multiplicity, f.history = 7, g.mod("tensormethod.core").History(f, f)
    g.ensure("multiplicity and parents kept", f.conj.multiplicity == 7 and f.conj.history is f.history)
    f.history = None
    g.ensure("involution", g.eq(c.conj._dict, f._dict))
    g.ensure("involution by ==", c.conj == f)
    g.ensure("dagger", f.label_with_dagger == (f.label + "†" if f.is_conj else f.label))
    g.ensure("dagger of conj", c.label_with_dagger == (f.label if f.is_conj else f.label + "†"))


@contract(P, covers=[M + "Field.conj", M + "IndexedField.field", M + "IndexedField.conj", M + "Field.__call__"], world="ghost", secs=60)
def symmetry_conj(g):
    """The slot symmetry goes with the indices: that of a conjugate is that of a field made
    with the conjugate's Dynkin labels, whether conjugated with or without its indices."""
    F = g.fn(M + "Field")
    d = [g.pick(f"d{k}", [0, 1, 2]) for k in range(5)] if g.thorough or not g.symbolic else list(
        g.pick("dynkin", [(2, 1, 0, 0, 0), (1, 0, 0, 0, 1), (0, 0, 2, 1, 0), (1, 2, 0, 1, 1), (2, 0, 1, 2, 0), (0, 0, 0, 0, 2), (2, 1, 1, 2, 1), (1, 1, 1, 1, 0)]))
    lab = g.text("label", no="†(),: \\", lo=1)
    kw = dict(charges=charges(g, "f"), is_conj=g.bool("is_conj"), latex="x", nf=g.pick("nf", [1, 3]))
    f = F(lab, "".join(map(str, d)), **kw)
    c = f.conj
    want = F(lab, "".join(str(d[k]) for k in (1, 0, 3, 2, 4)), latex="x").symmetry
    g.ensure("without indices", c.symmetry == want)
    own = g.pick("own", [False, True])
    if own:  # antisymmetric blocks are kept as they are, in their new places
        f.symmetry = [[len(b)] for b in f.symmetry]
        g.ensure("own blocks", f.conj.symmetry == [[len(b)] for b in want])
        f = F(lab, "".join(map(str, d)), symmetry=[[sum(b)] for b in f.symmetry], **kw)
        want = [[sum(b)] for b in want]
    labs = [t + str(n) for n, t in enumerate("u" * d[0] + "d" * d[1] + "c" * d[2])]
    labs += ["-c" + str(20 + n) for n in range(d[3])] + ["i" + str(30 + n) for n in range(d[4])] + ["g0"] * g.pick("generation", [0, 1])
    x = f(" ".join(labs))
    g.ensure("with indices", x.field.symmetry == f.symmetry and x.conj.field.symmetry == want)
    g.ensure("involution", x.conj.conj.field.symmetry == f.symmetry and f.conj.conj.symmetry == f.symmetry)
    g.ensure("same field", x.conj.field == f.conj)


@contract(P, covers=[M + "Field.conj", M + "IndexedField.conj", M + "Field.__call__"], mode="conc", runs=60, gsecs=20)
def symmetric_indices(g):
    """In the conjugate of a field, joining two indices of one representation by an
    antisymmetric epsilon gives zero, as it does in the field."""
    F, eps = g.fn(M + "Field"), g.fn(M + "eps")
    d = [g.pick(f"d{k}", [0, 1, 2]) for k in range(5)]
    f = F("A", "".join(map(str, d)), charges={"y": 1})
    labs = [t + str(n) for n, t in enumerate("u" * d[0] + "d" * d[1])] + ["c" + str(10 + n) for n in range(d[2])]
    labs += ["-c" + str(20 + n) for n in range(d[3])] + ["i" + str(30 + n) for n in range(d[4])]
    how = g.pick("how", ["field", "conj", "conj indexed"])
    if how == "conj":
        f = f.conj
        d = [d[k] for k in (1, 0, 3, 2, 4)]
        labs = [t + str(n) for n, t in enumerate("u" * d[0] + "d" * d[1])] + ["c" + str(10 + n) for n in range(d[2])]
        labs += ["-c" + str(20 + n) for n in range(d[3])] + ["i" + str(30 + n) for n in range(d[4])]
    x = f(" ".join(labs))
    if how == "conj indexed":
        x = x.conj
    for t in ("Undotted", "Dotted", "Isospin"):
        ix = [i for i in x.indices if i.index_type == t]
        if len(ix) == 2:
            g.ensure("vanishes", (x * eps(" ".join(str(-i) for i in ix))).safe_simplify() == 0)


@contract(P, covers=[M + "Field.conj"], world="ghost")
def not_self_conj(g):
    """A field never equals its own conjugate (the flag differs)."""
    f, d = field(g, "f", extra=False)
    g.ensure("differs", g.neg(f.conj == f))


@contract(P, covers=[M + "Field.is_scalar", M + "Field.is_boson", M + "Field.is_fermion", M + "Field.is_vector",
                     M + "Field.is_left_fermion", M + "Field.is_right_fermion", M + "Field.is_singlet",
                     M + "Field.is_sm_singlet", M + "Field.is_real_sm_irrep", M + "Field.mass_dim",
                     M + "Field.quantum_numbers"], world="ghost")
def predicates(g):
    """The predicates on a field say what its Dynkin labels and hypercharge say, and
    go over into each other under conjugation."""
    digits = [g.digit(f"d{i}") for i in range(5)]
    F = g.fn(M + "Field")
    y = g.real("y")
    f = F("X", digits[0] + digits[1] + digits[2] + digits[3] + digits[4], charges={"y": y})
    c = f.conj
    a, b, p, q, i = [f.dynkin_ints[k] for k in range(5)]
    B = bool
    sc, lf, rf, vec = B(a == 0) and B(b == 0), B(a == 1) and B(b == 0), B(a == 0) and B(b == 1), B(a == 1) and B(b == 1)
    g.ensure("is_scalar", B(f.is_scalar) == sc)
    g.ensure("is_left_fermion", B(f.is_left_fermion) == lf)
    g.ensure("is_right_fermion", B(f.is_right_fermion) == rf)
    g.ensure("is_vector", B(f.is_vector) == vec)
    even = B((a + b) % 2 == 0)
    g.ensure("is_boson", B(f.is_boson) == even)
    g.ensure("is_fermion", B(f.is_fermion) == (not even))
    sm0 = B(p == 0) and B(q == 0) and B(i == 0) and B(y == 0)
    g.ensure("is_sm_singlet", B(f.is_sm_singlet) == sm0)
    g.ensure("is_singlet", B(f.is_singlet) == (sm0 and sc))
    g.ensure("quantum_numbers", g.eq(f.quantum_numbers, (p, q, i, y)))
    g.ensure("conj left<->right", B(c.is_left_fermion) == rf)
    g.ensure("conj statistics", B(c.is_boson) == even)
    real = B(p == q) and B(i % 2 == 0) and B(y == 0)
    g.ensure("is_real_sm_irrep", B(f.is_real_sm_irrep) == real)
    g.ensure("reality conjugation invariant", B(c.is_real_sm_irrep) == real)
    if not even:
        g.ensure("mass_dim fermion", f.mass_dim == 1.5)
    elif sc or vec:
        g.ensure("mass_dim boson", f.mass_dim == 1)
    else:
        g.ensure("mass_dim undefined", raises(lambda: f.mass_dim, Exception))


@contract(P, covers=[M + "IndexedField.__new__", M + "IndexedField.__init__", M + "IndexedField.conj"], world="ghost", secs=60)
def indexed_conj(g):
    """conj of an indexed field conjugates each index in place, negates the charges,
    adds or removes the dagger; twice gives a field equal to the original, whether
    the indices were given as text or as a list."""
    IF = g.fn(M + "IndexedField")
    ix = shape(g)
    labs = [q[3] for q in ix]
    ch = charges(g, "f")
    isc = g.bool("is_conj")
    base = g.text("label", no="†(),: \\", lo=1)
    label = base + "†" if isc else base
    how = g.pick("how", ["text", "list", "indices"])
    ind = g.join(" ", labs)
    if how == "list":
        ind = labs
    elif how == "indices":
        ind = [g.fn(M + "Index")(l) for l in labs]
    f = IF(label, ind, charges=ch, is_conj=isc, comm=g.int("comm", 0, 1), latex="x")
    c = f.conj
    g.ensure("label", c.label == (base if isc else base + "†"))
    g.ensure("flag", g.iff(c.is_conj, g.neg(isc)))
    g.ensure("charges", g.all([c.charges[k] == -v for k, v in ch.items()]))
    g.ensure("number", len(c.indices) == len(ix))
    g.ensure("indices", g.all(same_index(g, i, BAR.get(t, t) + r, TYPES[BAR.get(t, t)], (s == "") != (t == "c"))
                              for i, (s, t, r, _) in zip(c.indices, ix)))
    d = dyn(ix)
    g.ensure("dynkin", c.dynkin == d[1] + d[0] + d[3] + d[2] + d[4])
    cc = c.conj
    g.ensure("involution", cc == f)
    g.ensure("involution on indices", g.all(a == b for a, b in zip(cc.indices, f.indices)))


@contract(P, covers=[M + "Field.__call__", M + "IndexedField.field"], world="ghost", secs=60)
def field_of_indexed(g):
    """Forgetting the indices of a field called on indices gives the field back, and
    this commutes with conjugation."""
    ix = shape(g)
    f = g.fn(M + "Field")(g.text("label", no="†(),: \\", lo=1), dyn(ix), charges=charges(g, "f"), is_conj=g.bool("is_conj"),
                          comm=g.int("comm", 0, 1), nf=g.pick("nf", [1, 3]), latex=g.text("latex", lo=1, no="()"))
    x = f(g.join(" ", [q[3] for q in ix]))
    g.ensure("field", x.field == f)
    g.ensure("latex", x.field.latex == f.latex)
    g.ensure("conj", x.conj.field == f.conj)
    f.derivs = g.int("derivs", 0, 2)
    f.stripped = {"label": g.text("under", lo=1), "dynkin": "00001", "charges": {"y": g.real("under y")}, "symmetry": [[1]], "latex": "y"}
    z = f(g.join(" ", [q[3] for q in ix]))
    g.ensure("derivatives", g.all([z.derivs == f.derivs, g.eq(z.stripped, f.stripped), z.field == f, g.eq(z.field.stripped, f.stripped), z.conj.field == f.conj]))
    g.ensure("mass_dim", x.field.mass_dim == x.mass_dim if f.is_fermion or f.is_scalar else True)


@contract(P, covers=[M + "IndexedField.substituted_indices", M + "IndexedField.substitute_indices"], world="ghost", secs=60)
def substitution(g):
    """Substituting indices changes exactly the slots that held one, all at once, and
    leaves the original field alone (or changes it in place, where asked to)."""
    IF, Index = g.fn(M + "IndexedField"), g.fn(M + "Index")
    ix = shape(g, shapes=["u", "ii", "ui", "cii", "c-c"])
    isc = g.pick("is_conj", [False, True])
    f = IF("X†" if isc else "X", g.join(" ", [q[3] for q in ix]), charges=charges(g, "f"), comm=g.int("comm", 0, 1), latex=g.text("latex", lo=1, no="()"),
           is_conj=isc, nf=g.pick("nf", [1, 3]), derivs=g.int("derivs", 0, 2), stripped=g.pick("stripped", [None, {"label": "Y", "dynkin": "00001", "charges": {"y": 1}, "symmetry": [[1]], "latex": "y"}]))
    k = g.pick("slot", list(range(len(ix))))
    new = Index(ix[k][0] + ix[k][1] + g.text("new", only="0123456789", lo=1))
    old = Index(ix[k][3])
    before = list(f.indices)
    pairs = [(old, new)]
    last = len(ix) - 1
    two = g.pick("pairs", [1, 2]) == 2 and last != k and ix[last][:2] == ix[k][:2]
    if two:  # exchange
        pairs = [(old, before[last]), (before[last], old)]
        new = before[last]
        g.assume(g.neg(old == new))
    h = f.substituted_indices(*pairs)
    g.ensure("length", len(h.indices) == len(ix))
    for j, b in enumerate(before):
        g.ensure("slot", g.implies(b == old, h.indices[j] == new))
        if two:
            g.ensure("exchanged", g.implies(b == new, h.indices[j] == old))
            g.ensure("other slot", g.any([b == old, b == new, h.indices[j] == b]))
        else:
            g.ensure("other slot", g.any([b == old, h.indices[j] == b]))
    g.ensure("original untouched", g.all(a == b for a, b in zip(f.indices, before)))
    g.ensure("rest", g.all([h.label == f.label, g.eq(h.charges, f.charges), h.comm == f.comm, h.is_conj == f.is_conj, h.nf == f.nf,
                            h.derivs == f.derivs, g.eq(h.stripped, f.stripped), h.latex == f.latex, h.symmetry == f.symmetry]))
    if not two:
        f.substitute_indices((old, new))
        g.ensure("in place", len(f.indices) == len(ix) and g.all(a == b for a, b in zip(f.indices, h.indices)))


@contract(P, covers=["tensormethod.sm"], mode="conc", exhaustive=True)
def standard_model(g):
    """The Standard Model fields have the quantum numbers of the Standard Model, and
    their conjugates the opposite ones."""
    from sympy import Rational as R

    table = {
        "L": ("10001", R(-1, 2), 0, 1), "Q": ("10101", R(1, 6), 1, 1), "H": ("00001", R(1, 2), 0, 0),
        "eb": ("10000", R(1), 0, 1), "ub": ("10010", R(-2, 3), -1, 1), "db": ("10010", R(1, 3), -1, 1),
    }
    name = g.pick("field", list(table))
    f = getattr(g.mod("tensormethod.sm"), name)
    d, y, b, comm = table[name]
    g.ensure("dynkin", f.dynkin == d)
    g.ensure("hypercharge", f.y == y)
    g.ensure("baryon number", f.charges["3b"] == b)
    g.ensure("statistics", g.fn(M + "FERMI") == f.comm if comm else f.comm == g.fn(M + "BOSE"))
    g.ensure("conj.conj", f.conj.conj == f)
    g.ensure("charges", {k: -v for k, v in f.charges.items()} == f.conj.charges)
