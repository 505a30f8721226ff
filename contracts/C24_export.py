"""Exported texts read back as what was exported."""

from itertools import islice

from contracts.C02_conj import shape
from contracts.C12_exotics import FERMIONS, REAL, SCALARS, distinct
from vx.harness import contract

LEVEL = "proof"
P = "C24"
E = "database.export."
K = "database.database."
C = "completions.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "completions.operators", "database.utils", "database.closures", "database.export", "database.database")
ASSUMES = (
    "opaque pieces (digits of index names and labels, decimal renderings of charges) need no escapes inside a literal: the text is parsed with a stand-in for each",
    "Standard Model fields are the six of the catalogue; exotic fields are scalars or fermions; at most one derivative",
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (bounded part: sympy itself)",
)
SM = ["L", "Q", "ub", "db", "eb", "H"]


def same_tensor(g, a, b):
    """Every part of the two tensors the same."""
    if type(a) is not type(b):
        return False
    if not isinstance(b, g.fn("tensormethod.core.Field")):
        return g.all([kind(a) == kind(b), len(a.indices) == len(b.indices)] + [x == y for x, y in zip(a.indices, b.indices)])
    out = [len(a.indices) == len(b.indices)] + [x == y for x, y in zip(a.indices, b.indices)]
    out += [a.label == b.label, a.dynkin == b.dynkin, g.eq(a.charges, b.charges), a.nf == b.nf, a.comm == b.comm, g.iff(a.is_conj, b.is_conj), a.latex == b.latex, a.derivs == b.derivs, g.eq(a.symmetry, b.symmetry)]
    out += [hasattr(a, "is_unbarred") == hasattr(b, "is_unbarred")]
    if hasattr(b, "is_unbarred"):
        out.append(g.iff(a.is_unbarred, b.is_unbarred))
    return g.all(out)


def kind(t):
    from vx.core import to_str

    return "delta" if to_str(t)[:2] == "KD" else "eps"


def same_operator(g, a, b):
    x, y = a.tensors, b.tensors
    return g.all([len(x) == len(y)] + [same_tensor(g, p, q) for p, q in zip(x, y)])


LETTERS = [("10000", "u"), ("01000", "d"), ("00100", "c"), ("00010", "-c"), ("00001", "i")]


def indices(g, f, name, conj=False):
    """Index labels that fit a field, with free names."""
    out = []
    for n, l in zip(f.dynkin, ["u", "d", "c", "-c", "i"]):
        for k in range(int(n)):
            out.append(l + g.text(f"{name}{l}{k}", only="0123456789", lo=1))
    return out


def sm_field(g, name, derivs=True):
    f = g.fn("tensormethod.sm." + g.pick(name, SM))
    if g.bool(name + "_conj"):
        f = f.conj
    if derivs and g.bool(name + "_deriv"):
        a, b = map(int, f.dynkin[:2])
        ds = [x for x in ((a + 1, b + 1), (a + 1, b - 1), (a - 1, b + 1)) if min(x) >= 0]
        x, y = g.pick(name + "_target", ds)
        f = g.fn("tensormethod.core.D")(f, f"{x}{y}")
    ix = indices(g, f, name)
    for k, a in enumerate(ix):
        for b in ix[:k]:
            if a[0] == b[0]:
                g.assume(g.neg(a == b))
    return f(g.join(" ", ix))


@contract(P, covers=[E + "export_tensor"], world="ghost", secs=120, runs=300)
def standard(g):
    """A Standard Model field, its conjugate or a derivative of it, with any indices,
    reads back as the same in every part."""
    t = sm_field(g, "f")
    g.ensure("read back", same_tensor(g, g.read(g.fn(E + "export_tensor")(t), K[:-1]), t))


def exotic(g, name, cls=None):
    cls = cls or g.pick(name + "cls", ["ComplexScalar", "RealScalar", "MajoranaFermion", "VectorLikeDiracFermion"])
    shapes = REAL.get(cls) or (FERMIONS if cls == "VectorLikeDiracFermion" else SCALARS)
    ix = distinct(g, shape(g, name, shapes=shapes if g.thorough or not g.symbolic else shapes[:4]))
    ch = {"y": 0, "3b": 0} if cls in REAL else {"y": g.real(name + "y"), "3b": g.real(name + "b")}
    if cls not in REAL:
        g.assume(g.neg(ch["y"] == 0))
    kw = {}
    conj = False
    if cls == "VectorLikeDiracFermion":
        kw["is_unbarred"] = g.bool(name + "unbarred")
    if cls not in REAL:
        conj = g.bool(name + "conj")
    lab = g.pick(name + "letter", ["ψ", "φ"], quick=1) + g.text(name + "label", only="0123456789")
    if kw and not bool(kw["is_unbarred"]):
        lab = lab + "~"
    if bool(conj):
        lab = lab + "†"
    latex = g.pick(name + "latex", ["\\bar{\\theta}", "x'", 'a"b\n', "\\nu_{1}"])
    return g.fn(C + cls)(lab, g.join(" ", [q[3] for q in ix]), charges=ch, latex=latex, is_conj=conj, **kw)


@contract(P, covers=[E + "export_tensor", C + "cons_completion_field"], world="ghost", secs=120, runs=300)
def exotics(g):
    """An exotic field of any kind, barred or not, conjugate or not, with any charges,
    indices and latex, reads back as the same in every part."""
    t = exotic(g, "x")
    g.ensure("read back", same_tensor(g, g.read(g.fn(E + "export_tensor")(t), K[:-1]), t))


def invariant(g, name):
    r = g.text(name + "r", only="0123456789", lo=1)
    s = g.text(name + "s", only="0123456789", lo=1)
    if g.pick(name, ["eps", "delta"]) == "eps":
        l = g.pick(name + "t", "udi")
        g.assume(g.neg(r == s))
        return g.fn("tensormethod.core.eps")("-" + l + r + " -" + l + s)
    return g.fn("tensormethod.core.delta")("c" + r + " -c" + s)


@contract(P, covers=[E + "export_tensor", E + "export_operator", E + "export_terms"], world="ghost", secs=120, runs=300)
def operators(g):
    """A product of fields, epsilons and deltas reads back as the product of the same in
    the same order, and a list of them as the list."""
    ts = [sm_field(g, "f", False) if not g.symbolic else g.fn("tensormethod.sm.Q")("u" + g.text("a", only="0123456789", lo=1) + " c0 i0")]
    ts += [exotic(g, "x", g.pick("cls", ["ComplexScalar", "VectorLikeDiracFermion"])) if not g.symbolic else g.fn("tensormethod.sm.H").conj("i" + g.text("b", only="0123456789", lo=1))]
    ts += [invariant(g, f"e{k}") for k in range(g.pick("n", range(3)))]
    seen = []
    for t in ts:
        for i in t.indices:
            g.assume(g.all(g.neg(i == j) for j in seen))
            seen.append(i)
    op = ts[0]
    for t in ts[1:]:
        op = op * t
    got = g.read(g.fn(E + "export_operator")(op), K[:-1])
    g.ensure("read back", same_operator(g, got, op))
    l = g.read(g.fn(E + "export_terms")([op, op]), K[:-1])
    g.ensure("list", isinstance(l, list) and len(l) == 2 and g.all(same_operator(g, x, op) for x in l))


# completions ------------------------------------------------------------------------


def partition(g, a, b):
    if hasattr(b, "node"):
        return type(a) is type(b) and bool(a.node == b.node) and bool(same_tensor(g, a.field, b.field))
    return isinstance(a, tuple) and len(a) == len(b) and all(partition(g, x, y) for x, y in zip(a, b))


def same_completion(g, a, b):
    ok = [a.operator.name == b.operator.name, same_operator(g, a.operator.operator, b.operator.operator), a.topology == b.topology]
    ok += [partition(g, a.partition, b.partition)]
    e = lambda gr: {frozenset(k[:2]): {n: (v if isinstance(v, str) else str(v)) for n, v in k[2].items()} for k in gr.edges(data=True)}
    ok += [set(a.graph.nodes) == set(b.graph.nodes), e(a.graph) == e(b.graph), dict(a.graph.nodes(data=True)) == dict(b.graph.nodes(data=True)) or all(not d for _, d in a.graph.nodes(data=True))]
    ok += [len(a.terms) == len(b.terms)] + [same_operator(g, x, y) for x, y in zip(a.terms, b.terms)]
    key = lambda x: (x.label, str(x.indices))
    x, y = sorted(a.exotics, key=key), sorted(b.exotics, key=key)
    ok += [isinstance(a.exotics, set), len(x) == len(y)] + [same_tensor(g, p, q) for p, q in zip(x, y)]
    return [k for k, v in enumerate(ok) if not v]


def completions(g, st, names, deriv=()):
    """Completions of catalogue operators, found once per run."""
    key = str(id(g.world))
    if key not in st:
        oc = g.fn("completions.completions.operator_completions")
        doc = g.fn("completions.completions.deriv_operator_completions")
        eff, deff = g.fn("completions.operators.EFF_OPERATORS"), g.fn("completions.operators.DERIV_EFF_OPERATORS")
        # operator 9 has completions with two exotic fields of the same quantum numbers
        st[key] = [(n, list(islice(oc(eff[n]), 8 if n == "9" else None))) for n in names] + [(n, list(doc(deff[n]))) for n in deriv]
    return st[key]


@contract(P, covers=[E + n for n in ("export_completion", "export_graph", "export_partition", "export_exotics", "export_terms", "proc_dicts", "proc_partition")] + [K + "LazyCompletion.force"], mode="conc", runs=60, gsecs=90)
def completion(g):
    """A completion reads back as one with the same operator, partition, graph, terms,
    exotic fields and topology; its lazy form holds the operator, the quantum numbers and
    terms it has, and is forced to the same."""
    cs = completions(g, completion.__dict__, ["1", "2", "3a", "3b", "4a", "8", "9"] + (["5a", "6b", "61a"] if g.thorough else []), ["D3", "D2a"] if g.thorough else ["D3"])
    n, l = g.pick("op", cs)
    if not l:
        g.ensure("none", True)
        return
    c = g.pick("c", l)
    ex = g.fn(E + "export_completion")
    g.ensure("read back", not same_completion(g, g.read(ex(c, lazy=False), K[:-1]), c))
    z = g.read(ex(c), K[:-1])
    g.ensure("lazy", type(z) is g.fn(K + "LazyCompletion"))
    g.ensure("forced", not same_completion(g, z.force(), c))
    sq = g.fn("utils.functions.stringify_qns")
    g.ensure("operator", z.operator_name == c.operator.name and z.head["topology"] == c.topology)
    g.ensure("terms", z.head["terms"] == [tuple(sq(f) for f in t.fields) for t in c.terms])
    g.ensure("fields", z.head["quantum_numbers"] == sorted(numbers(x) for x in c.exotics))
    a = ex(c)
    g.ensure("one line", "\n" not in a and a == ex(c))


def numbers(x):
    """Independent: spin, colour, isospin, hypercharge, baryon number of a field, or of its
    conjugate if that has positive hypercharge."""
    d, s = x.dynkin, 1
    if x.charges["y"] < 0:
        d, s = d[1] + d[0] + d[3] + d[2] + d[4], -1
    return f"{'S' if d[:2] == '00' else 'F'},{d[2]}{d[3]},{d[4]},{s * x.charges['y']},{s * x.charges['3b']}"


@contract(P, covers=[K + "read_completions", E + "export_completion"], mode="conc", runs=2, gsecs=60)
def files(g):
    """Completions written one to a line are read back, all of them, in order."""
    import os
    import tempfile

    n, l = g.pick("op", completions(g, completion.__dict__, ["1", "2", "3a", "3b", "4a", "8", "9"] + (["5a", "6b", "61a"] if g.thorough else []), ["D3", "D2a"] if g.thorough else ["D3"]))
    l = l[:12]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.dat")
        with open(p, "w") as f:
            f.writelines(g.fn(E + "export_completion")(c) + "\n" for c in l)
        r = g.fn(K + "read_completions")(p)
    g.ensure("all", [len(v) for v in r.values()] == ([len(l)] if l else []) and list(r) == ([n] if l else []))
    g.ensure("same", all(not same_completion(g, z.force(), c) for z, c in zip(r[n], l)))
