"""Operators: their stored form, their classification, and the catalogue."""

import re
from collections import Counter

from contracts.C02_conj import shape, dyn
from contracts.C24_export import same_operator, same_tensor
from vx.harness import contract

LEVEL = "proof"
P = "C25"
M = "tensormethod.core."
O = "completions.operators."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.lnv", "completions.core", "completions.completions", "completions.operators")
ASSUMES = (
    "fields without derivatives of derivatives; labels of the shapes listed",
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (bounded part: sympy itself)",
)
SHAPES = ["u", "i", "ui", "-ci", "u-ci", "dc", ""]


def some_field(g, name, used, shapes=None):
    """An indexed field with any label, charges and bookkeeping, of a listed shape."""
    ix = shape(g, name, shapes=shapes or SHAPES if shapes or g.thorough or not g.symbolic else (["ui", "u-ci"] if not used else ["uc"]))
    for q in ix:
        for a in used:
            if a[1] == q[1]:
                g.assume(g.neg(a[2] == q[2]))
        used.append(q)
    d = dyn(ix)
    conj = g.bool(name + "conj")
    f = g.fn(M + "Field")(
        g.pick(name + "lab", ["X", "Y"]), d, charges={"y": g.real(name + "y"), "3b": g.real(name + "b")}, is_conj=conj,
        comm=g.pick(name + "comm", ["bose", "fermi"], quick=1), nf=g.pick(name + "nf", [1, 3], quick=1), latex="x")
    n = 0 if g.symbolic and not g.thorough else g.pick(name + "deriv", [0, 1])
    if n:
        a, b = int(d[0]), int(d[1])
        f = g.fn(M + "D")(f, f"{a + 1}{b - 1 if b else b + 1}")
        ix = [q for q in ix if q[1] not in "ud"]
        for l, k in (("u", int(f.dynkin[0])), ("d", int(f.dynkin[1]))):
            for j in range(k):
                q = ("", l, f"{len(used) + 70}", f"{l}{len(used) + 70}")
                for a in used:
                    if a[1] == l:
                        g.assume(g.neg(a[2] == q[2]))
                used.append(q)
                ix.append(q)
        ix.sort(key=lambda q: "udci".index(q[1]))
    return f(g.join(" ", [q[3] for q in ix])), ix


def some_operator(g):
    used = []
    n = 2 if g.symbolic else g.pick("nf", [2, 3])
    parts = [some_field(g, f"f{k}", used) for k in range(n)]
    ts = [p[0] for p in parts]
    up = [q for _, ix in parts for q in ix]
    # joining what can be joined
    for t in "ui":
        same = [q for q in up if q[1] == t and q[0] == ""]
        if len(same) > 1 and g.bool("join" + t):
            ts.append(g.fn(M + "eps")(g.join(" ", ["-" + t + same[0][2], "-" + t + same[1][2]])))
    cu, cd = ([q for q in up if q[1] == "c" and q[0] == s] for s in ("", "-"))
    if cu and cd and g.bool("joinc"):
        ts.append(g.fn(M + "delta")(g.join(" ", ["c" + cd[0][2], "-c" + cu[0][2]])))
    elif g.bool("free eps"):
        ts.append(g.fn(M + "eps")("-c900 -c901 -c902"))
    return g.fn(M + "Operator")(*ts), ts


@contract(P, covers=[M + "Operator.pickle_form", M + "Operator.from_pickle_form", M + "IndexedField._dict"], world="ghost", secs=120, runs=300)
def stored(g):
    """An operator is the same after being stored as plain data and read back: the same
    fields with all their parts, the same epsilons and deltas, in order."""
    op, ts = some_operator(g)
    p = op.pickle_form()
    g.ensure("plain", set(p) == {"fields", "epsilons"} and plain(p))
    q = g.fn(M + "Operator").from_pickle_form(p)
    g.ensure("class", type(q) is g.fn(M + "Operator"))
    g.ensure("same", same_operator(g, q, op))
    g.ensure("stripped data", g.all(g.eq(a.stripped, b.stripped) for a, b in zip(q.indexed_fields, op.indexed_fields)))


def plain(x):
    if isinstance(x, dict):
        return all(isinstance(k, str) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return not type(x).__module__.startswith("neutrinomass")


@contract(P, covers=[M + "Operator.fields", M + "Operator.indexed_fields", M + "Operator.epsilons", M + "Operator.structures"], world="ghost", secs=60, runs=200)
def parts(g):
    """The fields of an operator are the fields multiplied, in order and without their
    indices, and its epsilons the rest, in order."""
    op, ts = some_operator(g)
    F = g.fn(M + "IndexedField")
    fs, es = [t for t in ts if isinstance(t, F)], [t for t in ts if not isinstance(t, F)]
    g.ensure("fields", len(op.indexed_fields) == len(fs) and all(a is b for a, b in zip(op.indexed_fields, fs)))
    g.ensure("without indices", len(op.fields) == len(fs) and g.all(a == b.field for a, b in zip(op.fields, fs)))
    g.ensure("epsilons", len(op.epsilons) == len(es) and g.all(same_tensor(g, a, b) for a, b in zip(op.epsilons, es)))


# the catalogue ----------------------------------------------------------------------

LEPTON = {"L": 1, "eb": -1}
EXTRA = {"1p": "1", "1pp": "1", "8p": "8", "8pp": "8", "7p": "7", "71p": "71", "76p": "76", "77p": "77", "78p": "78"}


def joined(e):
    """What an operator is: its fields, and which of them its epsilons join."""
    op = e.operator
    lab = lambda f: f.label + str(f.is_conj) + f.dynkin
    own = {str(i): lab(f) for f in op.indexed_fields for i in f.indices}
    return tuple(sorted(map(lab, e.fields))), tuple(sorted(tuple(sorted(own[str(-i)] for i in x.indices)) for x in op.epsilons))


def base(f):
    return f.label.replace("†", "").lstrip("D")


@contract(P, covers=[O + "EFF_OPERATORS", O + "DERIV_EFF_OPERATORS", "completions.core.EffectiveOperator.mass_dimension", M + "Operator.BL_classification", M + "Operator.contains_derivative"], mode="conc", exhaustive=True, runs=400, gsecs=60)
def catalogue(g):
    """Every operator of the catalogue is made of Standard Model fields, breaks lepton
    number by two units and conserves baryon number and hypercharge, has odd dimension,
    all isospin indices joined and is not there under two names; its Lorentz and colour indices can be
    joined; and the number in its name is the one of its field content in the list."""
    ops = {**g.fn(O + "EFF_OPERATORS"), **g.fn(O + "DERIV_EFF_OPERATORS")}
    name = g.pick("name", sorted(ops))
    e = ops[name]
    op = e.operator
    g.ensure("name", e.name == name)
    g.ensure("neutral", sum(f.charges["y"] for f in e.fields) == 0 and sum(f.charges["3b"] for f in e.fields) == 0)
    g.ensure("lepton number", sum(LEPTON.get(base(f), 0) * (-1 if f.is_conj else 1) for f in e.fields) == 2)
    for f in op.indexed_fields:
        sm = g.fn("tensormethod.sm." + base(f))
        s = f.strip_derivs() if f.derivs else f.field
        w = sm.conj if f.is_conj else sm
        g.ensure("standard model fields", s.dynkin == w.dynkin and s.charges == w.charges and s.nf == w.nf and s.comm == w.comm and s.is_conj == w.is_conj)
    dims = {"H": 1}
    d = sum(dims.get(base(f), 1.5) + f.derivs for f in e.fields)
    g.ensure("odd dimension", e.mass_dimension == d and d % 2 == 1 and 5 <= d <= 11)
    free = Counter((i.index_type, i.is_up) for i in op.free_indices)
    g.ensure("isospin joined", not any(t == "Isospin" for t, _ in free))
    g.ensure("no other is the same", not [k for k, o in ops.items() if k != name and len(o.fields) == len(e.fields) and joined(o) == joined(e)])
    n = Counter()
    for f in op.indexed_fields:
        for k, v in zip("ud", f.dynkin[:2]):
            n[k] += int(v)
        n["c"] += int(f.dynkin[2]) - int(f.dynkin[3])
    g.ensure("singlets exist", n["u"] % 2 == 0 and n["d"] % 2 == 0 and n["c"] % 3 == 0)
    for x in op.epsilons:
        g.ensure("joins the fields' indices", all((-i) in [j for f in op.indexed_fields for j in f.indices] for i in x.indices))
    derivs = any(f.derivs for f in e.fields)
    g.ensure("derivatives", bool(op.contains_derivative) == derivs == name.startswith("D"))
    want = {}
    for fs, k in g.fn("tensormethod.lnv.bl_list").items():
        want.setdefault(tuple(sorted(fs)), k)
    content = tuple(sorted(base(f) + (".conj" if f.is_conj else "") for f in e.fields))
    bl = op.BL_classification
    g.ensure("classified", bl == (-1 if derivs else want.get(content, -1)))
    if not derivs and content in want:
        g.ensure("number in the name", int(re.match(r"\d+", name)[0]) == want[content])
    if name in EXTRA:
        core = Counter(base(f) + str(f.is_conj) for f in ops[EXTRA[name]].fields)
        core.update({"HFalse": name.count("p"), "HTrue": name.count("p")})
        g.ensure("times Higgs pairs", core == Counter(base(f) + str(f.is_conj) for f in e.fields))
