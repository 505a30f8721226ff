"""Exotic fields: partners and mass terms."""

import random

from contracts import numeric
from contracts.lib import TYPES
from contracts.C02_conj import shape, dyn
from vx.harness import contract

LEVEL = "proof"
P = "C12"
C = "completions.core."
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "completions.core", "tensormethod.lagrangian", "completions.completions")
ASSUMES = (
    "labels of exotic fields are one letter and free digits; indices of the listed shapes with free labels",
    "indices of one field have different names",
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py",
)
FERMIONS = ["u", "ui", "uc", "u-ci", "uc-c", "uii", "d", "d-ci", "uiii"]
SCALARS = ["", "i", "c", "-ci", "c-c", "ii", "cc", "c-cii", "iii"]
REAL = {"MajoranaFermion": ["u", "uii", "uc-c", "d"], "RealScalar": ["", "ii", "c-c", "c-cii"]}


def distinct(g, ix):
    for k, a in enumerate(ix):
        for b in ix[:k]:
            if a[1] == b[1]:
                g.assume(g.neg(a[2] == b[2]))
    return ix


def make(g, cls=None, real=None):
    cls = cls or g.pick("cls", ["ComplexScalar", "RealScalar", "MajoranaFermion", "VectorLikeDiracFermion"])
    shapes = REAL.get(cls) or (FERMIONS if cls == "VectorLikeDiracFermion" else SCALARS)
    ix = distinct(g, shape(g, shapes=shapes))
    ch = {"3b": g.real("b")}
    if cls in REAL:
        ch = {"y": 0, "3b": 0}
    else:
        ch["y"] = g.real("y")
        if g.bool("extra"):
            ch["l"] = g.real("l")
    kw = {}
    conj = False
    if cls == "VectorLikeDiracFermion":
        conj = g.bool("conj")
        kw["is_unbarred"] = g.bool("unbarred")
    if cls == "ComplexScalar":
        conj = g.bool("conj")
    base = lab = "X" + g.text("label", only="0123456789")
    marks = ("~" if kw and not bool(kw["is_unbarred"]) else "") + ("†" if bool(conj) else "")
    lab = lab + marks
    x = g.fn(C + cls)(lab, g.join(" ", [q[3] for q in ix]), charges=ch, latex="x", is_conj=conj, **kw)
    BASE[0] = base
    return cls, x, ix, ch, lab


BASE = [None]


def marked(g, x):
    """The label is the name with a bar exactly if barred, a dagger exactly if conjugate."""
    b = BASE[0]
    bar, dag = not bool(x.is_unbarred), bool(x.is_conj)
    ok = {(False, False): [b], (True, False): [b + "~"], (False, True): [b + "†"], (True, True): [b + "~†"]}[bar, dag]
    return g.any(x.label == o for o in ok)


def flipped(g, got, ix, order="udci"):
    """The indices in order of type, colour flipped, the rest the same."""
    want = [q for t in order for q in ix if q[1] == t]
    return g.all([len(got) == len(want)] + [
        g.all([i.name == t + r, i.index_type == TYPES[t], bool(i.is_up) == ((s == "") != (t == "c"))])
        for i, (s, t, r, _) in zip(got, want)])


@contract(P, covers=[C + "VectorLikeDiracFermion.dirac_partner", C + "VectorLikeDiracFermion.__init__"], world="ghost", secs=60)
def dirac(g):
    """The Dirac partner of a fermion has all charges negated, colour flipped, the
    same Lorentz and isospin indices, and toggles the bar; the partner of the partner
    is the field."""
    cls, x, ix, ch, lab = make(g, "VectorLikeDiracFermion")
    p = x.dirac_partner()
    g.ensure("class", type(p) is type(x))
    g.ensure("charges", g.all([len(p.charges) == len(x.charges)] + [p.charges[k] == -x.charges[k] for k in x.charges]))
    g.ensure("indices", flipped(g, p.indices, ix))
    g.ensure("bar toggled", g.iff(p.is_unbarred, g.neg(x.is_unbarred)))
    g.ensure("flags", g.all([g.iff(p.is_conj, x.is_conj), p.comm == x.comm, p.comm == g.fn(M + "FERMI")]))
    g.ensure("other label", g.neg(p.label == x.label))
    q = p.dirac_partner()
    g.ensure("marks", g.all([marked(g, p), marked(g, q)]))
    for z in (x, p, q):
        g.ensure("name of the field", z.field.label == (BASE[0] + "~" if not bool(z.is_unbarred) else BASE[0]))
    g.ensure("label back", q.label == x.label)
    g.ensure("charges back", g.eq(q.charges, x.charges))
    g.ensure("indices back", g.all(a == b for a, b in zip(q.indices, [i for t in "Undotted Dotted Colour Isospin".split() for i in x.indices if i.index_type == t])))
    g.ensure("bar back", g.iff(q.is_unbarred, x.is_unbarred))


@contract(P, covers=[C + "VectorLikeDiracFermion.conj", C + "VectorLikeDiracFermion.conj_indices"], world="ghost", secs=60)
def dirac_conj(g):
    """Conjugation of a Dirac fermion negates the charges (or, for conj_indices, keeps
    them), conjugates each index in place, keeps the bar; conjugating the partner
    gives the quantum numbers of the partner of the conjugate."""
    cls, x, ix, ch, lab = make(g, "VectorLikeDiracFermion")
    c, k = x.conj, x.conj_indices
    for z, s in ((c, -1), (k, 1)):
        g.ensure("charges", g.all([z.charges[n] == s * x.charges[n] for n in x.charges]))
        g.ensure("indices", g.all([a == b.conj for a, b in zip(z.indices, x.indices)] + [len(z.indices) == len(ix)]))
        g.ensure("flag", g.iff(z.is_conj, g.neg(x.is_conj)))
        g.ensure("bar", g.iff(z.is_unbarred, x.is_unbarred))
        g.ensure("marks", marked(g, z))
    g.ensure("twice", g.all([c.conj.label == x.label, g.eq(c.conj.charges, x.charges), g.iff(c.conj.is_conj, x.is_conj)]))
    g.ensure("the field again", g.all([c.conj == x, k.conj_indices == x]))
    a, b = x.dirac_partner().conj, x.conj.dirac_partner()
    g.ensure("commutes", g.all([a.label == b.label, a.dynkin == b.dynkin, g.eq(a.charges, b.charges), g.iff(a.is_conj, b.is_conj), g.iff(a.is_unbarred, b.is_unbarred)]))


@contract(P, covers=[C + "MajoranaFermion.majorana_partner", C + "RealScalar.swap_colour_indices", C + "assert_real_rep"], world="ghost", secs=60)
def real_partner(g):
    """The partner of a real field keeps label, class and statistics, flips colour and
    has no charge."""
    cls, x, ix, ch, lab = make(g, g.pick("real", ["MajoranaFermion", "RealScalar"]))
    p = x.majorana_partner() if cls == "MajoranaFermion" else x.swap_colour_indices()
    g.ensure("class, label", g.all([type(p) is type(x), p.label == x.label, p.comm == x.comm]))
    g.ensure("statistics", x.comm == g.fn(M + ("FERMI" if cls == "MajoranaFermion" else "BOSE")))
    g.ensure("indices", flipped(g, p.indices, ix))
    g.ensure("no charge", g.all(v == 0 for v in p.charges.values()))


@contract(P, covers=[C + "assert_real_rep", C + "MajoranaFermion.__init__", C + "RealScalar.__init__", C + "ComplexScalar.__init__", C + "VectorLikeDiracFermion.__init__"], world="ghost", secs=60)
def accepted(g):
    """Real fields are accepted exactly with vanishing hypercharge and self-conjugate
    colour; scalar classes only without Lorentz indices; fermion classes only with
    an odd number of them."""
    cls = g.pick("cls", ["ComplexScalar", "RealScalar", "MajoranaFermion", "VectorLikeDiracFermion"])
    ix = distinct(g, shape(g, shapes=["", "u", "d", "ud", "uu", "uc", "c-c", "-c", "uc-c", "c", "ui", "ii"]))
    zero = g.bool("zero")
    y = g.real("y")
    g.assume(g.iff(y == 0, zero))
    dk = dyn(ix)
    fermion = (int(dk[0]) + int(dk[1])) % 2 == 1
    ok = fermion if cls in ("MajoranaFermion", "VectorLikeDiracFermion") else dk[:2] == "00"
    if cls in REAL:
        ok = ok and dk[2] == dk[3] and bool(zero)
    f = lambda: g.fn(C + cls)("X", g.join(" ", [q[3] for q in ix]), charges={"y": y}, latex="x")
    if ok:
        x = f()
        g.ensure("accepted", g.all([x.dynkin == dk, x.y == y]))
    else:
        g.expect("refused", AssertionError, f)


@contract(P, covers=[C + "FieldType.lower_su2", C + "cons_completion_field"], world="ghost", secs=60)
def lowered(g):
    """Lowering the SU(2) indices of a field renames each to a new one and gives one
    epsilon joining the new to the old, so that the product has the old indices
    lowered; colour is left alone, as are the types to skip; class, label, charges
    and flags are kept."""
    cls, x, ix, ch, lab = make(g)
    skip = g.pick("skip", [[], ["Isospin"], ["Undotted", "Dotted"]])
    old = list(x.indices)
    y, eps = x.lower_su2(skip=skip) if skip else x.lower_su2()
    todo = [i for i in old if i.index_type not in ("Colour", *skip)]
    g.ensure("x untouched", g.all([a == b for a, b in zip(x.indices, old)]))
    g.ensure("label, charges", g.all([y.label == x.label, g.eq(y.charges, x.charges) if cls not in REAL else True]))
    g.ensure("one epsilon per index", len(eps) == len(todo) and len(y.indices) == len(old))
    for e, i in zip(eps, [q for t in ("Undotted", "Dotted", "Isospin") for q in todo if q.index_type == t]):
        n, o = e.indices
        g.ensure("both lowered", not bool(n.is_up) and not bool(o.is_up))
        g.ensure("joins new and old", g.all([-o == i, n.index_type == i.index_type]) and any(bool(-n == j) for j in y.indices))
        g.ensure("new name", g.neg(n.name == o.name))
    for a, b in zip(y.indices, old):
        if b.index_type == "Colour" or b.index_type in skip:
            g.ensure("others kept", a == b)
        else:
            g.ensure("type kept", a.index_type == b.index_type and bool(a.is_up))


@contract(P, covers=[C + "ComplexScalar.mass_term", C + "RealScalar.mass_term", C + "MajoranaFermion.mass_term", C + "VectorLikeDiracFermion.mass_term"], world="ghost", secs=80)
def mass_term(g):
    """The mass term of an exotic field is the product of the field and its partner
    (conjugate, Dirac partner or itself), no index is left free, the charges add to
    zero, and it has one epsilon per SU(2) index."""
    cls, x, ix, ch, lab = make(g)
    complex_ = dyn(ix)[2] != dyn(ix)[3] or int(dyn(ix)[4]) % 2
    if cls not in REAL and not complex_:
        g.assume(g.neg(ch["y"] == 0))
    t = x.mass_term
    fs = [z for z in t.tensors if type(z).__name__ not in ("Tensor", "TensMul")]
    eps = [z for z in t.tensors if type(z).__name__ in ("Tensor", "TensMul")]
    g.ensure("two fields", len(fs) == 2)
    for k in fs[0].charges:
        g.ensure("neutral", g.any([fs[0].charges[k] + fs[1].charges[k] == 0, cls == "RealScalar" and k != "y"]))
    g.ensure("itself", any(bool(z.label == x.label) and bool(z.is_conj == x.is_conj) for z in fs))
    if cls == "ComplexScalar":
        g.ensure("conjugate", g.iff(fs[0].is_conj, g.neg(fs[1].is_conj)))
    if cls == "VectorLikeDiracFermion":
        g.ensure("partner", g.iff(fs[0].is_unbarred, g.neg(fs[1].is_unbarred)))
    if cls in REAL:
        g.ensure("itself twice", g.all([fs[0].label == fs[1].label]))
    g.ensure("no free index", len(t.get_free_indices()) == 0)
    g.ensure("epsilons", len(eps) == len([q for q in ix if q[1] != "c"]))
    g.ensure("same spin", fs[0].dynkin[:2] == fs[1].dynkin[:2])


@contract(P, covers=[C + "cons_completion_field", M + "Field.is_real_sm_irrep"], world="ghost", secs=60)
def classified(g):
    """A field is made a real scalar, complex scalar, Majorana or Dirac fermion exactly
    as its spin, colour, isospin and hypercharge say, and keeps label, indices,
    charges and conjugation; any other spin is refused."""
    ix = distinct(g, shape(g, shapes=["", "ii", "c-c", "i", "c", "u", "uii", "uc-c", "dc", "ui", "d", "ud", "uu"]))
    dk = dyn(ix)
    y = g.real("y")
    conj = g.bool("conj")
    f = g.fn(M + "IndexedField")("X" + ("†" if bool(conj) else ""), g.join(" ", [q[3] for q in ix]), charges={"y": y, "3b": g.real("b")}, is_conj=conj,
                                  comm=g.fn(M + ("FERMI" if (int(dk[0]) + int(dk[1])) % 2 else "BOSE")), latex="x")
    spin = int(dk[0]) + int(dk[1])
    cons = g.fn(C + "cons_completion_field")
    if spin == 2:
        g.expect("refused", Exception, cons, f)
        return
    real = dk[2] == dk[3] and int(dk[4]) % 2 == 0 and bool(y == 0)
    x = cons(f)
    want = {(0, True): "RealScalar", (0, False): "ComplexScalar", (1, True): "MajoranaFermion", (1, False): "VectorLikeDiracFermion"}[(spin, real)]
    g.ensure("class", type(x).__name__ == want)
    g.ensure("kept", g.all([x.label == f.label, g.eq(x.charges, f.charges), x.dynkin == f.dynkin] + [a == b for a, b in zip(x.indices, f.indices)]))
    if want != "RealScalar":
        g.ensure("conjugation", g.iff(x.is_conj, f.is_conj))


@contract(P, covers=[C + "ComplexScalar.mass_term", C + "VectorLikeDiracFermion.mass_term", C + "MajoranaFermion.mass_term", C + "RealScalar.mass_term", C + "FieldType.lower_su2"], mode="conc", runs=300)
def mass_real(g):
    """Mass terms with sympy's tensors: every index joined to one of its own, and the
    number invariant under Lorentz, SU(3) and SU(2)."""
    cls, x, ix, ch, lab = make(g)
    t = x.mass_term
    g.ensure("well formed", not numeric.well_formed(t))
    g.ensure("invariant", numeric.is_invariant(t, random.Random(2), 1))
    g.ensure("hypercharge", sum(f.y for f in t.fields) == 0)
    y, eps = x.lower_su2()
    g.ensure("lowered", sorted(str(i) for e in eps for i in e.indices) == sorted(["-" + str(i) for z in (x, y) for i in z.indices if i.index_type != "Colour"]))
