"""Completions written as plain data (JSON)."""

import json

from contracts.C24_export import completions, exotic, invariant, kind, sm_field
from vx.core import to_str
from vx.harness import contract

LEVEL = "proof"
P = "C33"
J = "database.json_serialiser."
C = "completions.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "completions.operators", "database.json_serialiser")
ASSUMES = (
    "Standard Model fields are the six of the catalogue; exotic fields are scalars or fermions; at most one derivative",
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (bounded part: sympy itself)",
    "networkx's node_link_data (bounded part: networkx itself)",
)
TYPES = [("Undotted", "u"), ("Dotted", "d"), ("Colour", "c"), ("Isospin", "i"), ("Generation", "g")]


def by_type(g, t, got):
    """The texts of the indices of a tensor under their types, in order."""
    ok = [set(got) == {n for n, _ in TYPES}]
    for n, l in TYPES:
        want = [to_str(i) for i in t.indices if i.index_type == n]
        ok += [isinstance(got[n], list), len(got[n]) == len(want)] + [a == b for a, b in zip(got[n], want)]
    ok.append(sum(len(v) for v in got.values()) == len(t.indices))
    return g.all(ok)


def pair(x):
    return [int(i) for i in x]


def says(g, t, d):
    """Whether plain data says what the tensor is."""
    F = g.fn("tensormethod.core.Field")
    if not isinstance(t, F):
        want = {"eps": "Eps", "delta": "Delta"}[kind(t)]
        return g.all([bool(d["Field"]) is False, d["label"] == want, len(d["Indices"]) == len(t.indices)] + [a == to_str(b) for a, b in zip(d["Indices"], t.indices)])
    ex = isinstance(t, g.fn(C + "FieldType"))
    ok = [d["Field"] is True, d["Exotic"] is ex, d["Deriv"] is bool(t.derivs), g.iff(d["IsConj"], t.is_conj), by_type(g, t, d["Indices"])]
    if ex:
        ok += [d["Label"] == t.label, d["Latex"] == t.latex, d["Comm"] == t.comm, d["Nf"] == t.nf, pair(d["LorentzDynkin"]) == pair(t.dynkin[:2]), pair(d["ColourDynkin"]) == pair(t.dynkin[2:4]), int(d["IsospinDynkin"]) == int(t.dynkin[4])]
        ok += [set(d["Charges"]) == set(t.charges)] + [d["Charges"][k] == to_str(v) for k, v in t.charges.items()]
        ok += [[list(x) for x in d["Symmetry"]] == [list(x) for x in t.symmetry]]
        un = getattr(t, "is_unbarred", None)
        ok += [d["IsUnbarred"] is None if un is None else g.iff(d["IsUnbarred"], un)]
    else:
        names = [n for n in ("L", "Q", "ub", "db", "eb", "H") if t.label.strip("D") in (n, n + "†")]
        ok += [len(names) == 1, d["Label"] == names[0]]
        if t.derivs:
            ok.append(d["DerivDynkin"] == t.dynkin[:2])
    return g.all(ok)


def jsonable(g, d):
    """The data survives being written as JSON and read (natively)."""
    if g.symbolic:
        return True
    lists = lambda x: [lists(i) for i in x] if isinstance(x, (list, tuple)) else {k: lists(v) for k, v in x.items()} if isinstance(x, dict) else x
    return json.loads(json.dumps(d)) == lists(d)


@contract(P, covers=[J + "export_tensor"], world="ghost", mode="both", secs=120, runs=200)
def standard(g):
    """The data of a Standard Model field, its conjugate or a derivative of it, says its
    name, conjugation, every index under its type in order, and the Lorentz labels of a
    derivative."""
    t = sm_field(g, "f")
    d = g.fn(J + "export_tensor")(t)
    g.ensure("says", says(g, t, d))
    g.ensure("json", jsonable(g, d))


@contract(P, covers=[J + "export_tensor"], world="ghost", mode="both", secs=120, runs=200)
def exotics(g):
    """The data of an exotic field says its label, latex, indices, charges, labels,
    symmetry, statistics, conjugation and bar."""
    t = exotic(g, "x")
    d = g.fn(J + "export_tensor")(t)
    g.ensure("says", says(g, t, d))
    g.ensure("json", jsonable(g, d))


@contract(P, covers=[J + "export_tensor", J + "export_operator", J + "export_terms", J + "export_eff_operator"], world="ghost", mode="both", secs=120, runs=200)
def operators(g):
    """The data of an operator is that of its fields, epsilons and deltas in order."""
    ts = [sm_field(g, "f", False) if not g.symbolic else g.fn("tensormethod.sm.Q")("u" + g.text("a", only="0123456789", lo=1) + " c0 i0")]
    ts += [exotic(g, "x", g.pick("cls", ["ComplexScalar", "VectorLikeDiracFermion"])) if not g.symbolic else g.fn("tensormethod.sm.H").conj("i" + g.text("b", only="0123456789", lo=1))]
    ts += [invariant(g, f"e{k}") for k in range(g.pick("n", range(3)))]
    seen = []
    for t in ts:
        for i in t.indices:
            g.assume(g.all(g.neg(i == j) for j in seen))
            seen.append(i)
    op = ts[0]
    for t in ts[1:]:
        op = op * t
    same = lambda got: g.all([len(got) == len(op.tensors)] + [says(g, t, d) for t, d in zip(op.tensors, got)])
    g.ensure("operator", same(g.fn(J + "export_operator")(op)))
    l = g.fn(J + "export_terms")([op, op])
    g.ensure("terms", g.all([len(l) == 2] + [same(x) for x in l]))
    name = g.text("name", lo=1)
    e = g.fn(J + "export_eff_operator")(g.fn(C + "EffectiveOperator")(name, op))
    g.ensure("named", g.all([set(e) == {"Name", "Operator"}, e["Name"] == name, same(e["Operator"])]))


@contract(P, covers=[J + "export_partition"], world="ghost", mode="both", secs=60, runs=60)
def partitions(g):
    """The data of a partition nests as it does and says every leaf's field and node."""
    Leaf = g.fn("completions.topologies.Leaf")
    n = [0]

    def leaf():
        n[0] += 1
        k = n[0]
        return Leaf(g.fn("tensormethod.sm.H")("i" + str(k)), g.int(f"n{k}", 1, 1000))

    def tree(depth):
        n[0] += 1
        if depth == 0 or not g.bool(f"split{n[0]}"):
            return leaf()
        return tuple(tree(depth - 1) for _ in range(g.pick(f"w{n[0]}", [2, 3] if depth == 2 else [2], quick=1 if g.symbolic else None)))

    p = (leaf(), tree(2))

    def same(d, x):
        if not hasattr(x, "node"):
            return g.all([isinstance(d, (tuple, list)), len(d) == len(x)] + [same(a, b) for a, b in zip(d, x)]) if len(d) == len(x) else False
        return g.all([set(d) == {"Field", "Node"}, d["Field"] == to_str(x.field), d["Node"] == x.node])

    d = g.fn(J + "export_partition")(p)
    g.ensure("nested", same(d, p))
    g.ensure("json", jsonable(g, d))


@contract(P, covers=[J + "export_" + n for n in ("completion", "graph", "partition", "exotics", "terms", "eff_operator", "tensor", "operator")], mode="conc", runs=60, gsecs=60)
def completion(g):
    """The data of a completion can be written as JSON and says its operator, partition,
    terms, exotic fields, and every line of its diagram with its ends and field."""
    cs = completions(g, completion.__dict__, ["1", "2", "3a", "3b", "4a", "8"] + (["5a", "6b", "61a"] if g.thorough else []), ["D3", "D2a"] if g.thorough else ["D3"])
    n, l = g.pick("op", cs)
    if not l:
        g.ensure("none", True)
        return
    c = g.pick("c", l)
    d = g.fn(J + "export_completion")(c)
    g.ensure("json", jsonable(g, d))
    g.ensure("operator", d["EffectiveOperator"]["Name"] == c.operator.name and len(d["EffectiveOperator"]["Operator"]) == len(c.operator.operator.tensors) and all(says(g, t, x) for t, x in zip(c.operator.operator.tensors, d["EffectiveOperator"]["Operator"])))
    g.ensure("terms", len(d["Terms"]) == len(c.terms) and all(len(x) == len(t.tensors) and all(says(g, a, b) for a, b in zip(t.tensors, x)) for t, x in zip(c.terms, d["Terms"])))
    by = lambda f: (f.label, [to_str(i) for i in f.indices])
    es = sorted(c.exotics, key=by)
    ds = sorted(d["Exotics"], key=lambda e: e["Label"])
    g.ensure("exotics", [e.label for e in es] == [e["Label"] for e in ds] and (len({e.label for e in es}) < len(es) or all(says(g, t, x) for t, x in zip(es, ds))))
    gr = d["Graph"]
    links = gr["links"] if "links" in gr else gr["edges"]
    got = sorted((tuple(sorted((x["source"], x["target"]))), x["particle"]) for x in links)
    want = sorted((tuple(sorted((a, b))), p) for a, b, p in c.graph.edges(data="particle"))
    g.ensure("lines", got == want and sorted(x["id"] for x in gr["nodes"]) == sorted(c.graph.nodes))
    leaves = []

    def walk(x, y):
        if hasattr(x, "node"):
            leaves.append((y["Field"], y["Node"]) == (to_str(x.field), x.node))
        else:
            leaves.append(len(x) == len(y))
            for a, b in zip(x, y):
                walk(a, b)

    walk(c.partition, d["Partition"])
    g.ensure("partition", all(leaves))


@contract(P, covers=[J + "export_graph"], mode="conc", runs=40)
def lines(g):
    """Lines that carry fields rather than labels are written as the data of the field;
    the graph itself keeps them."""
    import networkx as nx

    H, L = g.fn("tensormethod.sm.H"), g.fn("tensormethod.sm.L")
    fs = [H("i0"), L("u0 i1"), H.conj("i2"), "φ", "ψ†"]
    G = nx.Graph()
    n = g.int("n", 1, 5)
    for k in range(n):
        G.add_edge(g.int(f"a{k}", 0, k), k + 1, particle=g.pick(f"p{k}", fs))
    before = [(a, b, str(p)) for a, b, p in G.edges(data="particle")]
    d = g.fn(J + "export_graph")(G)
    links = d["links"] if "links" in d else d["edges"]
    ok = len(links) == n
    for x in links:
        p = G.edges[x["source"], x["target"]]["particle"]
        ok = ok and (x["particle"] == p if isinstance(p, str) else not isinstance(x["particle"], str) and bool(says(g, p, x["particle"])))
    g.ensure("fields", ok)
    g.ensure("kept", before == [(a, b, str(p)) for a, b, p in G.edges(data="particle")])
    g.ensure("json", jsonable(g, d))
