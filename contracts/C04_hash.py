"""Equality and hashing."""

from contracts.lib import field, charges, ilabel
from contracts.C02_conj import shape
from vx.harness import contract

LEVEL = "proof"
P = "C04"
M = "tensormethod.core."
C = "completions.core."
PRELOAD = ("tensormethod.core", "completions.core", "completions.completions", "completions.operators")
ASSUMES = ("interface of sympy's TensorIndex/Tensor as in vx/ghost_tensor.py", "hash(tuple) depends only on the hashes of its parts")


def two_charges(g):
    """The same charges, written down in either order."""
    y, b, l, q = g.real("y"), g.real("b"), g.real("l"), g.real("q")
    o = [("y", y), ("3b", b), ("l", l), ("q", q)]
    a = [o[k] for k in g.pick("order1", [(0, 1, 2, 3), (1, 0, 2, 3), (3, 2, 1, 0)])]
    c = [o[k] for k in g.pick("order2", [(0, 1, 2, 3), (3, 2, 0, 1)])]
    return dict(a), dict(c)


def pair(g, cls, ix, ch1, ch2, **kw):
    lab = g.text("label", no="†(),: \\", lo=1)
    lab2 = g.text("label2", no="†(),: \\", lo=1)
    a = cls(lab, g.join(" ", [q[3] for q in ix]), charges=ch1, latex="x", **kw)
    ix2 = [q[:2] + (g.text(f"second{k}", only="0123456789", lo=1),) for k, q in enumerate(ix)]
    kw = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
    b = cls(lab2, g.join(" ", [s + t + r for s, t, r in ix2]), charges=ch2, latex="x", **kw)
    return a, b


def law(g, a, b):
    e1, e2 = bool(a == b), bool(b == a)
    g.ensure("symmetric", e1 == e2)
    g.ensure("reflexive", a == a)
    g.ensure("!= is not ==", bool(a != b) != e1)
    if e1:
        g.cover("equal pair")
        g.ensure("equal objects hash equal", g.eq(g.hash(a), g.hash(b)))


@contract(P, covers=[M + "Field.__eq__", M + "Field.__hash__"], world="ghost", must_cover=("equal pair",))
def field_law(g):
    """== on fields is symmetric and reflexive, blind to the order charges were given
    in, and equal fields hash equal (two fields that may differ in label, flag,
    statistics, Dynkin labels or a charge)."""
    ch1, ch2 = two_charges(g)
    F = g.fn(M + "Field")
    d = [g.digit("d0", 1)] + (["0", "1"] if not g.thorough else [g.digit("d1", 1), g.digit("d2", 1)]) + ["0", "1"]
    e = g.digit("e", 1)
    other = g.pick("other charge", ["", "y", "l"])
    if other == "y":
        ch2["y"] = g.real("y2")
    if other == "l":
        del ch2["l"]  # a charge only one of them has
    a = F(g.text("l1", lo=1), d[0] + d[1] + d[2] + d[3] + d[4], charges=ch1, is_conj=g.bool("c1"), comm=g.int("m1", 0, 1), latex="x")
    b = F(g.text("l2", lo=1), e + d[1] + d[2] + d[3] + d[4], charges=ch2, is_conj=g.bool("c2"), comm=g.int("m2", 0, 1), latex="y")
    law(g, a, b)


@contract(P, covers=[M + "IndexedField.__eq__", M + "IndexedField.__hash__"], world="ghost", must_cover=("equal pair",))
def indexed_law(g):
    """The same for indexed fields with free index labels, with and without a derivative."""
    ch1, ch2 = two_charges(g)
    ix = shape(g, shapes=["u", "ui", "c-c", ""])
    if g.bool("fewer"):
        del ch2["l"]
    kw = {"is_conj": g.bool("c")}
    if g.bool("derivative"):
        kw.update(derivs=1, stripped={"label": g.text("base", lo=1), "dynkin": "10000", "symmetry": [[1]], "charges": {"y": ch1["y"]}, "latex": "x"})
    a, b = pair(g, g.fn(M + "IndexedField"), ix, ch1, ch2, **kw)
    law(g, a, b)


@contract(P, covers=[C + "FieldType.__hash__"], world="ghost", must_cover=("equal pair",))
def exotic_law(g):
    """The same for the exotic fields of completions."""
    ch1, ch2 = two_charges(g)
    cls = g.pick("cls", ["ComplexScalar", "VectorLikeDiracFermion"])
    ix = shape(g, shapes=["ci", "i", ""] if cls == "ComplexScalar" else ["ui", "uci"])
    if cls == "VectorLikeDiracFermion":
        g.assume(g.mod("tensormethod.core") is not None)
    a, b = pair(g, g.fn(C + cls), ix, ch1, ch2)
    law(g, a, b)


@contract(P, covers=[M + "Index.__new__"], mode="conc", runs=1500)
def index_law(g):
    """Indices with equal name, type and position are equal and hash equal, however
    the label was written; otherwise they differ."""
    Index = g.fn(M + "Index")
    s, t, r, lab = ilabel(g, "a", rest=g.text("r1", alphabet="01_a", lo=0))
    s2, t2, r2, lab2 = ilabel(g, "b", types="udc", rest=g.text("r2", alphabet="01_a", lo=0))
    a, b = Index(lab), Index(lab2)
    same = (s, t, r) == (s2, t2, r2)
    g.ensure("== iff same", (a == b) == same)
    if same:
        g.ensure("hash", hash(a) == hash(b))
    g.ensure("upper case", Index(lab.upper()) == a and hash(Index(lab.upper())) == hash(a))


@contract(P, covers=[C + "Completion.__hash__", C + "Completion.__eq__", C + "EffectiveOperator.__hash__"], mode="conc", exhaustive=True, gsecs=40)
def completion_law(g):
    """Completions can be put in sets: hashing works, is stable, and a copy with the
    same operator, content and partition is equal and hashes equal."""
    ops = g.fn("completions.operators.EFF_OPERATORS")
    op = ops[g.pick("op", ["1", "2", "3a"])]
    comps = list(g.fn("completions.completions.operator_completions")(op))[: (60 if g.thorough else 8)]
    Completion = g.fn(C + "Completion")
    for c in comps:
        d = Completion(c.operator, c.partition, c.graph, set(c.exotics), list(c.terms), c.topology)
        g.ensure("stable", hash(c) == hash(c))
        g.ensure("equal", c == d and d == c)
        g.ensure("hash", hash(c) == hash(d))
    g.ensure("in a set", len(set(comps)) == len(comps))


class Exotic:
    """An exotic field by its quantum numbers."""

    is_fermion, is_scalar = False, True

    def __init__(self, label, y, b, irrep):
        self.label, self.y, self.charges, self.sm_irrep = label, y, {"y": y, "3b": b}, irrep

    @property
    def conj(self):
        a, b, c = self.sm_irrep
        return Exotic(self.label, -self.y, -self.charges["3b"], (b, a, c))

    def __eq__(self, o):
        return self.label == o.label

    def __hash__(self):
        return hash(self.label)


@contract(P, covers=[C + "Completion.__eq__", C + "Completion.__hash__", C + "Completion.__init__", C + "Completion.exotic_info"], hash=True, must_cover=("equal pair",), secs=60)
def completion_parts(g):
    """Completions are equal exactly when the operator, the quantum numbers of the exotic
    fields and the partition are, whatever the graph, terms, topology and the order of
    the exotic fields; equal ones hash equal; nothing else equals a completion."""
    new = g.fn(C + "Completion")
    ops = [("op", 1), ("op", 2)]
    e, f = Exotic("e", g.real("ye"), g.real("be"), (1, 0, g.int("ie", 0, 3))), Exotic("f", g.real("yf"), 0, (0, 1, 1))
    e2 = Exotic("e", g.real("ye2"), g.real("be2"), (1, 0, g.int("ie2", 0, 3)))
    part = lambda k: ((g.int(f"p{k}", 0, 5), 7), (1, (2, 3)))[: 2]
    p1, p2 = part(1), part(2)
    o2 = g.pick("operator", [0, 1])
    a = new(ops[0], p1, "graph", {e: None, f: None}.keys() if g.bool("order") else [f, e], ["t"], "topology")
    content = g.pick("content", ["same", "other", "fewer"])
    b = new(ops[o2], p2, "another graph", {"same": [e, f], "other": [e2, f], "fewer": [f]}[content], ["u"], "other")
    eq = bool(a == b)
    g.ensure("symmetric", bool(b == a) == eq)
    g.ensure("reflexive", bool(a == a) and bool(b == b))
    g.ensure("!=", bool(a != b) != eq)
    sign = lambda x: (x.y, x.charges["3b"], 1, 0, x.sm_irrep[2]) if not bool(x.y < 0) else (-x.y, -x.charges["3b"], 0, 1, x.sm_irrep[2])
    same = content == "same" or content == "other" and bool(g.all(u == v for u, v in zip(sign(e), sign(e2))))
    g.ensure("exactly then", eq == (o2 == 0 and same and bool(p1[0][0] == p2[0][0])))
    if eq:
        g.cover("equal pair")
        g.ensure("equal completions hash equal", g.eq(g.hash(a), g.hash(b)))
    g.ensure("nothing else", not bool(a == "a") and bool(a != None))  # noqa: E711
