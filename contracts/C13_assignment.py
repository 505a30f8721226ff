"""Putting the fields of an operator on the ends of a topology."""

from math import factorial
import itertools

from contracts.lib import stat
from vx.harness import contract

LEVEL = "proof"
P = "C13"
K = "completions.completions."
U = "completions.utils."
M = "tensormethod.core."
T = "completions.topologies."
PRELOAD = ("tensormethod.core", "completions.core", "completions.topologies", "completions.completions", "completions.operators")
ASSUMES = ("nested tuples of the listed shapes (leaf values free)", "the fields of an operator are pairwise different")

SHAPES = ["LL", "L(LL)", "(LL)(LL)", "LL(L(LL))", "(LLL)L", "((LL)L)(LL)", "(LL)(LL)(LL)", "t", "Lt", "(Lt)t", "LLLL"]


def nested(g, shape, mk):
    """A nested tuple: L a Leaf(field, node), t a bare value."""
    stack = [[]]
    for ch in shape:
        if ch == "(":
            stack.append([])
        elif ch == ")":
            x = tuple(stack.pop())
            stack[-1].append(x)
        else:
            stack[-1].append(mk(ch))
    return tuple(stack[0])


@contract(P, covers=[K + "replace"], secs=60)
def replaced(g):
    """replace changes exactly the first value equal to the wanted one, in reading
    order, keeps the shape and the leaves, and says whether it found one; when told
    that it was found already it changes nothing."""
    Leaf = g.fn(T + "Leaf")
    vals = []

    def mk(ch):
        k = len(vals)
        v = g.text(f"v{k}", lo=1)
        vals.append(v)
        return Leaf(v, 100 + k) if ch == "L" else v

    shape = g.pick("shape", SHAPES)
    data = nested(g, shape, mk)
    old, new = g.text("old", lo=1), g.text("new", lo=1)
    f = g.fn(K + "replace")
    got, found = f(data=data, to_replace=old, replace_with=new)
    want, hit = [], False
    for v in vals:
        if not hit and bool(v == old):
            want.append(new)
            hit = True
        else:
            want.append(v)
    it = iter(want)
    count = iter(range(99))
    exp = nested(g, shape, lambda ch: Leaf(next(it), 100 + next(count)) if ch == "L" else (next(it), next(count))[0])
    g.ensure("found", bool(found) == hit)
    g.ensure("value", g.eq(got, exp))

    def same_kind(a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return type(a) is type(b) and len(a) == len(b) and all(same_kind(x, y) for x, y in zip(a, b))
        return True

    g.ensure("leaves stay leaves", same_kind(got, exp))
    got2, found2 = f(data, old, new, found=True)
    g.ensure("already found", g.all([g.eq(got2, data), bool(found2)]))


class F:
    """Stand-in for a field: only its statistics are looked at."""

    def __init__(self, name, boson):
        self.name, self.is_boson, self.is_fermion = name, boson, not boson
        self.label = name

    def __repr__(self):
        return self.name


def flat(p, Leaf):
    if isinstance(p, Leaf):
        return [p]
    return [x for q in p for x in flat(q, Leaf)]


def strip(p, Leaf):
    return (p.node,) if isinstance(p, Leaf) else [strip(q, Leaf) for q in p]


@contract(P, covers=[K + "replace_fields", K + "replace"], secs=60)
def fields_placed(g):
    """replace_fields puts each field, in order, on the first free end of its kind, for
    all kinds of the fields and of the ends."""
    Leaf = g.fn(T + "Leaf")
    kinds = []

    def mk(ch):
        k = g.bool(f"s{len(kinds)}")
        k = bool(k)
        kinds.append(k)
        return Leaf("S" if k else "F", 10 + len(kinds))

    shape = g.pick("shape", ["LL", "L(LL)", "(LL)(LL)", "LL(L(LL))"], quick=None)
    part = nested(g, shape, mk)
    n = len(kinds)
    order = g.pick("order", [0, 1, 2])
    which = sorted(kinds) if order == 0 else sorted(kinds, reverse=True) if order == 1 else kinds[1:] + kinds[:1]
    fs = [F(f"f{k}", b) for k, b in enumerate(which)]
    got = g.fn(K + "replace_fields")(fs, part)
    q = {True: [f for f in fs if f.is_boson], False: [f for f in fs if not f.is_boson]}
    want = [q[k].pop(0) for k in kinds]
    ls = flat(got, Leaf)
    g.ensure("placed in order", len(ls) == n and all(l.field is w for l, w in zip(ls, want)))
    g.ensure("nodes", strip(got, Leaf) == strip(part, Leaf))


@contract(P, covers=[K + "distribute_fields", K + "replace_fields", K + "quick_remove_equivalent_partitions"], mode="both", secs=60, hash=True)
def distributed(g):
    """distribute_fields gives every assignment of the fields to the ends of their kind,
    each once."""
    Leaf = g.fn(T + "Leaf")
    kinds = []

    def mk(ch):
        kinds.append(bool(g.bool(f"s{len(kinds)}")))
        return Leaf("S" if kinds[-1] else "F", 10 + len(kinds))

    part = nested(g, g.pick("shape", ["LL", "L(LL)", "(LL)(LL)", "(LL)L(LL)"], quick=None if not g.symbolic else 3), mk)
    order = g.pick("order", [0, 1])
    fs = [F(f"f{k}", b) for k, b in enumerate(sorted(kinds, reverse=bool(order)))]
    got = g.fn(K + "distribute_fields")(fs, part)
    ns = sum(kinds)
    seen = []
    for p in got:
        ls = flat(p, Leaf)
        g.ensure("each field once", sorted(l.field.name for l in ls) == sorted(f.name for f in fs))
        g.ensure("on ends of its kind", all(l.field.is_boson == k for l, k in zip(ls, kinds)))
        g.ensure("nodes", strip(p, Leaf) == strip(part, Leaf))
        seen.append(tuple(l.field.name for l in ls))
    g.ensure("each assignment once", len(set(seen)) == len(seen))
    g.ensure("all assignments", len(seen) == factorial(ns) * factorial(len(kinds) - ns))


def ops(g):
    store = ops.__dict__
    k = "o" + str(id(g.world))
    if k not in store:
        eff = g.fn("completions.operators.EFF_OPERATORS")
        der = g.fn("completions.operators.DERIV_EFF_OPERATORS")
        store[k] = list(eff.values()) + list(der.values())
    return store[k]


def interchangeable(op):
    """Classes of fields with one label joined by: no isospin, or an isospin epsilon."""
    fs = op.indexed_fields
    cls = list(range(len(fs)))
    pairs = [{(i.name) for i in e.indices} for e in op.epsilons if len(e.indices) == 2]
    for a, b in itertools.combinations(range(len(fs)), 2):
        if fs[a].label != fs[b].label:
            continue
        ia, ib = fs[a].indices_by_type["Isospin"], fs[b].indices_by_type["Isospin"]
        if not ia or (ib and {ia[0].name, ib[0].name} in pairs):
            cls[b] = cls[a]
    return cls


@contract(P, covers=[K + "indexed_fields_with_counters"], mode="conc", exhaustive=True, gsecs=30)
def counters(g):
    """Every operator of the catalogue: each field has a counter, and two fields of one
    label have the same exactly when they are interchangeable (no isospin, or joined by
    an epsilon)."""
    all_ops = ops(g)
    k = g.pick("op", range(len(all_ops)))
    op = all_ops[k].operator
    got = g.fn(K + "indexed_fields_with_counters")(op)
    fs = op.indexed_fields
    g.ensure("each field", len(got) == len(fs) and all(f in got for f in fs))
    cls = interchangeable(op)
    for a, b in itertools.combinations(range(len(fs)), 2):
        if fs[a].label == fs[b].label:
            g.ensure("same counter", (got[fs[a]] == got[fs[b]]) == (cls[a] == cls[b]))


@contract(P, covers=[K + "indexed_fields_with_counters"], mode="conc", runs=200)
def counters_of_repeated(g):
    """The same for products of up to four fields of two kinds, joined at random."""
    IF = g.fn(M + "IndexedField")
    n = g.pick("n", [2, 3, 4])
    fs, iso = [], []
    for k in range(n):
        lab = g.pick(f"l{k}", ["A", "A", "B"])
        doublet = lab == "A" and g.pick("doublets", [0, 1]) if k == 0 else None
        if k == 0:
            both = g.pick("isospin", ["none", "A", "all"])
        has = both == "all" or (both == "A" and lab == "A")
        fs.append(IF(lab, f"i{k}" if has else f"c{k}", charges={"y": 0}, latex="x"))
        if has:
            iso.append(f"i{k}")
    eps = []
    rest = list(iso)
    while len(rest) > 1:
        a = rest.pop(0)
        b = rest.pop(g.int(f"e{len(eps)}", 0, 2) % len(rest))
        eps.append(g.fn(M + "eps")(f"-{a} -{b}"))
    op = fs[0]
    for x in [*fs[1:], *eps]:
        op = op * x
    got = g.fn(K + "indexed_fields_with_counters")(op)
    cls = interchangeable(op)
    for a, b in itertools.combinations(range(n), 2):
        if fs[a].label == fs[b].label:
            g.ensure("same counter", (got[fs[a]] == got[fs[b]]) == (cls[a] == cls[b]))


@contract(P, covers=[K + "set_external_fields", K + "node_dictionary", U + "flatten", U + "chunks"], secs=60)
def labels_on_edges(g):
    """Whatever the counters are: the edge at each end of a diagram is labelled with the
    field there and its counter, no other edge gets a label, and the diagram of the
    topology is left as it was."""
    import networkx as nx

    Leaf = g.fn(T + "Leaf")
    shape = g.pick("shape", [s for s in SHAPES if "t" not in s])
    nums, at, edges, count = {}, {}, [], [100]

    class F:
        def __init__(self, label, k):
            self.label, self.k = label, k

    def mk(ch):
        k = len(at)
        f = F("QLe"[k % 3], k)
        nums[f] = g.text(f"c{k}", lo=1) if g.symbolic else g.int(f"c{k}", 0, 40)
        at[7 * k + 3] = f
        return Leaf(f, 7 * k + 3)

    part = nested(g, shape, mk)

    def build(p):
        if hasattr(p, "node"):
            return p.node
        count[0] += 1
        me = count[0]
        for q in p:
            edges.append((build(q), me))
        return me

    build(part)
    if g.pick("turned", [0, 1]):
        edges = [(b, a) for a, b in reversed(edges)]
    G = nx.Graph()
    G.add_edges_from(edges)
    out = g.fn(K + "set_external_fields")(part, G, nums)
    g.ensure("same edges", {frozenset(e) for e in out.edges} == {frozenset(e) for e in edges} and set(out.nodes) == set(G.nodes))
    for a, b, d in out.edges(data=True):
        on = [at[n] for n in (a, b) if n in at]
        g.ensure("label there", g.eq(d.get("particle"), on[0].label + (nums[on[0]] if g.symbolic else str(nums[on[0]]))) and set(d) == {"particle"} if on else not d)
    g.ensure("topology untouched", all(not d for *_, d in G.edges(data=True)))


@contract(P, covers=[K + "partitions", K + "set_external_fields", K + "node_dictionary", K + "distribute_fields", U + "flatten", U + "chunks"], mode="conc", runs=60, gsecs=25)
def all_partitions(g):
    """The partitions of an operator of the catalogue: for every topology of its class,
    colour structure and assignment one, with each field once on an end of its kind,
    its label on the edge there and on no other edge."""
    small = [o for o in ops(g) if len(o.operator.fields) <= 6]
    op = small[g.int("op", 0, 10**6) % len(small)]
    Leaf = g.fn(T + "Leaf")
    parts = g.fn(K + "partitions")(op)
    t = op.topology_type
    tops = g.fn(T + "get_topology_data")(**t)
    col = g.fn("tensormethod.contract.colour_singlets")([op.operator], overcomplete=True)
    want = len(tops) * len(col) * factorial(t["n_scalars"]) * factorial(t["n_fermions"])
    g.ensure("as many as assignments", len(parts) == want)
    fs = op.operator.indexed_fields
    count = g.fn(K + "indexed_fields_with_counters")(op.operator)
    rnd = [parts[g.int(f"p{k}", 0, 10**6) % len(parts)] for k in range(12)]
    for p in rnd:
        ls = flat(p["partition"], Leaf)
        g.ensure("each field once", sorted(map(str, fs)) == sorted(str(l.field) for l in ls))
        top = [x for x in tops if p["topology"] in x["partition_file"].replace(".dat", "/").split("/")]
        g.ensure("a topology of the class", len(top) == 1)
        end = {l.node: l.field for l in flat(top[0]["partition"], Leaf)}
        g.ensure("kinds", all((end[l.node] == "S") == l.field.is_boson for l in ls))
        edges = {frozenset(e): d for *e, d in p["graph"].edges(data=True)}
        g.ensure("same graph", set(edges) == {frozenset(e) for e in top[0]["graph"].edges})
        for e, d in edges.items():
            on = [l for l in ls if l.node in e]
            g.ensure("label on the edge", d == ({"particle": on[0].field.label + str(count[on[0].field])} if on else {}))
        g.ensure("its own epsilons", p["epsilons"] == p["operator"].operator.epsilons and p["operator"].name == op.name)
        g.ensure("operator with colour contracted", p["operator"].operator.indexed_fields == fs and not p["operator"].operator.indices_by_type["Colour"]
                 and [str(e) for e in p["epsilons"] if e.indices[0].index_type != "Colour"] == [str(e) for e in op.operator.epsilons if e.indices[0].index_type != "Colour"])
    per = {}
    for p in parts:
        per[id(p["operator"])] = per.get(id(p["operator"]), 0) + 1
    g.ensure("every colour structure", len(per) == len(col) and set(per.values()) == {want // len(col)})


@contract(P, covers=[K + "partitions"], secs=40)
def combinations_made(g):
    """Whatever the topologies, colour structures and assignments are: partitions gives
    every combination of one of each once, with the colour structure's epsilons, a
    diagram of its own and the name of the topology's file."""
    nt, nc, na = g.pick("topologies", [0, 1, 2]), g.pick("colours", [1, 2, 3]), g.pick("assignments", [0, 1, 2])

    class Op:
        def __init__(self, k):
            self.k, self.epsilons = k, [("eps", k)]

    class Eff:
        name, operator, topology_type = "an operator", "its tensors", {"n_scalars": 2, "n_fermions": 2}

    asked, graphs = [], []
    tops = [{"partition": ("shape", t), "graph": ("graph", t), "partition_file": f"/some/where/2s2f_{t}.dat"} for t in range(nt)]
    g.callee(K + "get_topology_data", lambda **kw: asked.append(kw) or tops)
    g.callee(K + "colour_singlets", lambda ops, overcomplete=False: asked.append((list(ops), overcomplete)) or [Op(k) for k in range(nc)])

    class EO:
        def __init__(self, name, operator):
            self.name, self.operator = name, operator

    g.callee(K + "EffectiveOperator", EO)
    g.callee(K + "indexed_fields_with_counters", lambda op: {("field", k): k for k in range(4)})
    g.callee(K + "distribute_fields", lambda fields, partition: [(tuple(fields), partition, k) for k in range(na)])

    class Graph:
        def __init__(self, perm, graph):
            self.perm, self.graph = perm, graph
            graphs.append(self)

    g.callee(K + "set_external_fields", lambda partition, graph, field_dict: Graph(partition, graph) if field_dict == {("field", k): k for k in range(4)} else None)
    out = g.fn(K + "partitions")(Eff())
    got = []
    for p in out:
        t, a = p["partition"][1][1], p["partition"][2]
        got.append((t, p["operator"].operator.k, a))
        g.ensure("fields", p["partition"][0] == tuple(("field", k) for k in range(4)))
        g.ensure("operator", p["operator"].name == "an operator" and p["epsilons"] == [("eps", p["operator"].operator.k)])
        g.ensure("diagram", isinstance(p["graph"], Graph) and p["graph"].perm == p["partition"] and p["graph"].graph == ("graph", t))
        g.ensure("topology", p["topology"] == f"2s2f_{t}")
    g.ensure("every combination once", sorted(got) == sorted((t, c, a) for t in range(nt) for c in range(nc) for a in range(na)))
    g.ensure("own diagrams", len({id(p["graph"]) for p in out}) == len(out))
    g.ensure("asked for", {"n_scalars": 2, "n_fermions": 2} in asked and (["its tensors"], True) in asked)
