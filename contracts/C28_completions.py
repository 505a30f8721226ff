"""From an assignment of fields to a completion: diagram, exotic fields and terms."""

import itertools
import random
from collections import Counter

from contracts import numeric
from contracts.lib import multiset_eq
from vx.harness import contract

LEVEL = "proof"
P = "C28"
K = "completions.completions."
M = "tensormethod.core."
C = "completions.core."
T = "completions.topologies."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.topologies", "completions.completions", "completions.operators")
ASSUMES = (
    "contract, get_lorentz_epsilons and separate_gauge_epsilons by their contracts (C09, C10, C11): here any outcome",
    "the shapes of the topologies are those of the data (C14)",
    "interface of sympy's tensors as in vx/ghost_tensor.py (bounded part: sympy itself)",
)
SM = ("L", "Q", "ub", "db", "eb", "H")


def base(label):
    """The name of a field: without derivatives, bars and daggers."""
    b = label.replace("†", "").replace("~", "")
    while len(b) > 1 and b.startswith("D"):
        b = b[1:]
    return b


def leaves(p, Leaf):
    if isinstance(p, Leaf):
        return [p]
    return [x for q in p for x in leaves(q, Leaf)]


def reach(graph, start, without):
    """Nodes that stay connected to start when an edge is taken away."""
    seen, todo = {start}, [start]
    while todo:
        n = todo.pop()
        for m in graph.neighbors(n):
            if {n, m} != set(without) and m not in seen:
                seen.add(m)
                todo.append(m)
    return seen


def cuts(graph):
    """Inner edges, each with the ends on one of its sides and on the other."""
    ends = {n for n in graph.nodes if graph.degree(n) == 1}
    out = {}
    for a, b in graph.edges:
        if a in ends or b in ends:
            continue
        side = frozenset(reach(graph, a, (a, b)) & ends)
        out[frozenset((a, b))] = (side, frozenset(ends - side))
    return out


# topologies by numbers of scalars and fermions: those of the catalogue
KINDS = [(2, 2), (0, 4), (1, 4), (3, 2), (0, 6), (2, 4), (4, 2), (1, 6), (3, 4)]


def topologies(g, kinds):
    get = g.fn(T + "get_topology_data")
    return [t for s, f in kinds for t in get(n_scalars=s, n_fermions=f)]


def placed(tree, Leaf, mk):
    if isinstance(tree, Leaf):
        return Leaf(mk(tree), tree.node)
    return tuple(placed(q, Leaf, mk) for q in tree)


@contract(P, covers=[K + "partition_completion", K + "construct_completion", K + "replace_and_mutate", K + "reduced_row", K + "contains_only_leaves", K + "get_connecting_edge"],
          world="ghost", secs=120, gsecs=20, runs=120)
def diagram(g):
    """Whatever contracting pairs and triples of lines gives (an exotic field with a term,
    or a failure): a completion is made exactly if nothing fails; it has the terms, one to
    a vertex, the exotic fields of its lines, every inner line of the diagram labelled by
    the exotic field that the fields beyond it were contracted to, the outer lines as they
    were, and the operator's Lorentz structure multiplied on."""
    import networkx as nx

    IF, eps = g.fn(M + "IndexedField"), g.fn(M + "eps")
    Leaf = g.fn(T + "Leaf")
    tops = topologies(g, [(2, 2), (0, 4), (1, 4), (3, 2)] if g.symbolic else KINDS[:7])
    top = tops[g.pick("topology", range(len(tops)), quick=12 if g.symbolic else None)]
    graph = nx.Graph()
    graph.add_edges_from(top["graph"].edges)
    count = itertools.count()
    part = placed(top["partition"], Leaf, lambda l: IF(f"A{next(count)}", "", charges={"y": 0}, comm=0))
    under = {id(l.field): frozenset([l.node]) for l in leaves(part, Leaf)}
    nodes = set().union(*under.values())
    for a, b in graph.edges:
        if a in nodes or b in nodes:
            graph.edges[a, b]["particle"] = f"out{a}-{b}"
    outer = {e: graph.edges[e].get("particle") for e in graph.edges}
    shape = set(map(frozenset, graph.edges))

    class Term:
        def __init__(self, k):
            self.k, self.fields, self.free_indices = k, [], []

    calls, failed = [], []

    def contracted(fields, symbols=None, gauge_epsilons=None, field_dict=None):
        k = len(calls)
        calls.append(tuple(fields))
        if g.bool(f"fails{k}"):
            failed.append(f"reason {k}")
            return failed[-1]
        kind = g.pick(f"exotic{k}", ["same", "same with index", "own"])
        lab = f"ψ{k}" if kind == "own" else "φ"
        ex = IF(lab, f"i{50 + k}" if kind == "same with index" else "", charges={"y": 0}, comm=0)
        under[id(ex)] = frozenset().union(*[under[id(f)] for f in fields])
        keep.append(ex)
        made.append((ex, Term(k), eps(f"-u{200 + 2 * k} -u{201 + 2 * k}") if k % 2 else None))
        return ex, made[-1][1], list(gauge_epsilons), [made[-1][2]] if made[-1][2] is not None else []

    last, keep, made, lastfails = [], [], [], bool(g.bool("last fails"))

    def lorentz(fields):
        last.append(list(fields))
        if lastfails:
            return False, []
        return True, [eps("-u400 -u401")]

    g.callee(K + "contract", contracted)
    g.callee(K + "get_lorentz_epsilons", lorentz)
    g.callee(K + "separate_gauge_epsilons", lambda fields, gauge_epsilons: ([], []))
    g.callee(K + "check_singlet", lambda *a, **k: None)
    EO = g.fn(C + "EffectiveOperator")
    op = IF("B", "u400", charges={"y": 0}, comm=0) * IF("B", "u401", charges={"y": 0}, comm=0)
    data = {"operator": EO("op", op), "partition": part, "epsilons": [], "graph": graph, "topology": "some"}
    comp = g.fn(K + "partition_completion")(data)
    ok = not failed and len(last) == 1 and not lastfails
    Failed = g.fn(C + "FailedCompletion")
    if not ok:
        g.ensure("not a completion", isinstance(comp, Failed))
        g.ensure("reason", comp.reason in failed if failed else isinstance(comp.reason, str) and len(comp.reason) > 0)
        return
    g.ensure("a completion", isinstance(comp, g.fn(C + "Completion")))
    g.ensure("partition, topology", g.all([comp.partition == part, comp.topology == "some", comp.operator.name == "op"]))
    ends = nodes
    inner = cuts(graph)
    g.ensure("a line contracted for every inner edge", len(calls) == len(inner))
    g.ensure("one term a vertex", len(comp.terms) == len(made) + 1 and all(any(t is m[1] for t in comp.terms) for m in made))
    rest = [t for t in comp.terms if not isinstance(t, Term)]
    fs = [f for f in rest[0].tensors if isinstance(f, IF)] if len(rest) == 1 else []
    roots = [ex for ex, _, _ in made if not any(any(f is ex for f in c) for c in calls)]
    roots += [l.field for l in leaves(part, Leaf) if not any(any(f is l.field for f in c) for c in calls)]
    g.ensure("last vertex", len(fs) == len(roots) and sorted(f.label for f in fs) == sorted(r.label for r in roots))
    # the diagram
    g.ensure("diagram kept", set(map(frozenset, comp.graph.edges)) == shape)
    for e, lab in outer.items():
        if frozenset(e) not in inner:
            g.ensure("outer lines", comp.graph.edges[e].get("particle") == lab)
    want = {under[id(ex)]: ex.label for ex, _, _ in made}
    for e, (one, two) in inner.items():
        lab = want.get(one, want.get(two))
        g.ensure("inner lines", lab is not None and comp.graph.edges[tuple(e)].get("particle") == lab)
    g.ensure("exotic fields", {(f.label, str(f)) for f in comp.exotics} == {(ex.label, str(ex)) for ex, _, _ in made})
    extra = [m[2] for m in made if m[2] is not None]
    g.ensure("operator", len(comp.operator.operator.tensors) == 2 + len(extra) + 1)
    g.ensure("operator's fields", multiset_eq([str(t) for t in comp.operator.operator.tensors], ["B(u400)", "B(u401)"] + [str(e) for e in extra] + [str(eps("-u400 -u401"))]))


@contract(P, covers=[K + "operator_completions"], secs=30)
def every_partition(g):
    """The completions of an operator are those of its partitions, every one that does not
    fail, in order, however many there are."""
    Failed = g.fn(C + "FailedCompletion")
    parts = g.seq("parts", lambda k: ("part", k))
    bad = g.ufun("fails", kind="bool")

    def one(p):
        if bool(bad(p[1])):
            return Failed("no")
        return ("completion", p[1])

    g.callee(K + "partitions", lambda op, verbose=False: parts)
    g.callee(K + "partition_completion", one)
    verbose = g.pick("verbose", [False, True])

    class Bar:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return lambda *a, **k: None

        def __exit__(self, *a):
            return False

    g.callee(K + "alive_bar", Bar)
    g.callee(K + "print", lambda *a, **k: None)
    g.loop("operator_completions", g.collect(lambda k: ("completion", k), lambda k: g.neg(bad(k))))
    out = g.fn(K + "operator_completions")("an operator", verbose=verbose)
    g.each("completions", out if not hasattr(out, "__next__") else list(out), parts, f=lambda p: ("completion", p[1]), p=lambda p: g.neg(bad(p[1])))


@contract(P, covers=[K + "deriv_operator_completions"], secs=30)
def every_derivative(g):
    """The completions of an operator with derivatives are those of every way its
    derivatives can act that does not vanish."""
    n = g.pick("n", [0, 1, 2, 3])

    class Combo:
        def __init__(self, k):
            self.k, self.operator = k, self
            self.zero = g.bool(f"zero{k}")

        def simplify(self, *a, **kw):
            return 0 if self.zero else 1

        safe_simplify = simplify

    combos = [Combo(k) for k in range(n)]
    sizes = [g.pick(f"size{k}", [0, 1, 2]) for k in range(n)]
    g.callee(K + "derivative_combinations", lambda op: combos)
    g.callee(K + "operator_completions", lambda op, verbose=False: iter([(op.k, j) for j in range(sizes[op.k])]))
    g.callee(K + "print", lambda *a, **k: None)
    out = g.fn(K + "deriv_operator_completions")("an operator", verbose=g.pick("verbose", [False, True]))
    want = [(c.k, j) for c in combos if not c.zero for j in range(sizes[c.k])]
    g.ensure("completions", list(out) == want)


@contract(P, covers=[K + "deriv_operator_completions", K + "derivative_combinations"], mode="conc", exhaustive=True, gsecs=60)
def every_derivative_tried(g):
    """The same for the operators of the catalogue: what is completed is every way the
    derivatives of the operator can act, each once, also on fields that look alike."""
    _, der = catalogue(g)
    op = der[g.pick("op", range(len(der)))]
    ways = list(g.fn(K + "derivative_combinations")(op))
    asked = []

    def completed(o, *a, **k):
        asked.append(o)
        return iter([(len(asked), j) for j in range(2)])

    g.callee(K + "derivative_combinations", lambda o: list(ways))
    g.callee(K + "operator_completions", completed)
    out = list(g.fn(K + "deriv_operator_completions")(op))
    g.ensure("each way once", sorted(map(id, asked)) == sorted(map(id, ways)) and len(ways) > 0)
    g.ensure("all found", sorted(out) == [(k + 1, j) for k in range(len(ways)) for j in range(2)])


def catalogue(g):
    store = catalogue.__dict__
    k = "o" + str(id(g.world))
    if k not in store:
        store[k] = (list(g.fn("completions.operators.EFF_OPERATORS").values()), list(g.fn("completions.operators.DERIV_EFF_OPERATORS").values()))
    return store[k]


def drawn(g, op):
    """One assignment of the fields of an operator to a topology, with one of its colour
    structures, as partitions makes them."""
    tops = g.fn(T + "get_topology_data")(**op.topology_type)
    top = tops[g.pick("topology", range(len(tops)))]
    cols = g.fn("tensormethod.contract.colour_singlets")([op.operator], overcomplete=True)
    col = cols[g.pick("colour", range(len(cols)))]
    num = g.fn(K + "indexed_fields_with_counters")(op.operator)
    fs = list(num)
    random.Random(g.int("order", 0, 10**6)).shuffle(fs)
    part = g.fn(K + "replace_fields")(fs, top["partition"])
    graph = g.fn(K + "set_external_fields")(part, top["graph"], num)
    EO = g.fn(C + "EffectiveOperator")
    return {"operator": EO(op.name, col), "partition": part, "epsilons": col.epsilons, "graph": graph, "topology": "some"}


def handed(p, Leaf, at=None):
    """Handedness of the fermion line out of a subtree (None: boson), or "bad" if two
    fermions of opposite handedness meet."""
    if isinstance(p, Leaf):
        f = p.field
        return {"10": "L", "01": "R"}.get(f.dynkin[:2]) if f.is_fermion else None
    hs = [handed(q, Leaf) for q in p]
    if "bad" in hs:
        return "bad"
    hs = [h for h in hs if h]
    if len(hs) == 2:
        return None if hs[0] == hs[1] else "bad"
    return hs[0] if hs else None


def content(fs):
    return Counter((base(f.label), f.is_conj) for f in fs)


def judge(g, op, data, comp):
    """What a completion of an operator must be, from the operator and its diagram alone."""
    Leaf = g.fn(T + "Leaf")
    IF = g.fn(M + "IndexedField")
    Failed = g.fn(C + "FailedCompletion")
    part, graph = data["partition"], data["graph"]
    derivs = any(f.derivs for f in op.fields)
    tree = tuple(part)
    if not derivs and handed(tree, Leaf) == "bad":
        g.ensure("opposite handedness needs a vector", isinstance(comp, Failed))
        return
    if isinstance(comp, Failed):
        g.ensure("reason", isinstance(comp.reason, str) and len(comp.reason) > 0)
        if not derivs:
            g.ensure("only vanishing couplings fail", "anishing" in comp.reason)
        return
    g.cover("a completion")
    ends = {l.node: l.field for l in leaves(part, Leaf)}
    inner = cuts(graph)
    g.ensure("diagram", set(map(frozenset, comp.graph.edges)) == set(map(frozenset, graph.edges)))
    lab = {frozenset(e): comp.graph.edges[e].get("particle") for e in comp.graph.edges}
    g.ensure("every line labelled", all(isinstance(v, str) and v for v in lab.values()))
    names = {n: base(f.label) for n, f in ends.items()}
    # terms and vertices
    verts = [v for v in graph.nodes if graph.degree(v) > 1]
    at = Counter()
    for v in verts:
        at[tuple(sorted(base(names[n]) if n in names else base(lab[frozenset((v, n))]) for n in graph.neighbors(v)))] += 1
    got = Counter(tuple(sorted(base(f.label) for f in t.fields)) for t in comp.terms)
    g.ensure("a term for every vertex, of the fields that meet there", at == got)
    for t in comp.terms:
        g.ensure("no free index", all(i.index_type == "Generation" for i in t.free_indices))
        for c in ("y", "3b"):
            g.ensure("charges are conserved", sum(f.charges.get(c, 0) for f in t.fields) == 0)
        g.ensure("no derivatives left", all(f.derivs == 0 for f in t.fields))
        if numeric.told(t.tensors) and len({f.label for f in t.fields}) < len(t.fields):
            g.ensure("no term vanishes", not numeric.vanishes(t.tensors, random.Random(8)))
    std = [f for t in comp.terms for f in t.fields if base(f.label) in SM]
    g.ensure("outer fields are the operator's", content(std) == content(op.fields))
    # exotic fields
    by = {}
    for f in comp.exotics:
        by.setdefault(base(f.label), []).append(f)
    g.ensure("exotic fields are the inner lines", set(by) == {base(lab[e]) for e in inner})
    for e, (one, two) in inner.items():
        y = sum(ends[n].charges["y"] for n in one)
        b = sum(ends[n].charges["3b"] for n in one)
        doublets = sum(len(ends[n].indices_by_type["Isospin"]) for n in one)
        tri = sum((1 if i.is_up else -1) for n in one for i in ends[n].indices_by_type["Colour"])
        ferm = sum(1 for n in one if ends[n].is_fermion) % 2
        fine = []
        for f in by.get(base(lab[e]), []):
            cs = (f.charges["y"], f.charges["3b"])
            fu, fd, fcu, fcd, fi = map(int, f.dynkin)
            s = 1 if cs == (y, b) else -1
            fine.append(
                (cs in ((y, b), (-y, -b)))
                and fi <= doublets and (fi - doublets) % 2 == 0
                and ((fcu - fcd) - s * tri) % 3 == 0
                or (cs == (0, 0) and (y, b) == (0, 0) and fi <= doublets and (fi - doublets) % 2 == 0 and ((fcu - fcd) + tri) % 3 == 0)
            )
            g.ensure("statistics", (fu + fd) == ferm and bool(f.is_fermion) == bool(ferm))
        g.ensure("an inner line has the quantum numbers of what goes in", any(fine))
    # operator
    ex = comp.operator.operator
    g.ensure("operator without free indices", all(i.index_type == "Generation" for i in ex.free_indices))
    g.ensure("operator of the same fields", content(f for f in ex.tensors if isinstance(f, IF)) == content(op.fields))
    g.ensure("partition", comp.partition == part and comp.operator.name == op.name)


@contract(P, covers=[K + "partition_completion", K + "construct_completion", K + "replace_and_mutate", K + "contract", K + "exotic_field_and_term", K + "get_lorentz_epsilons", K + "separate_gauge_epsilons", K + "check_singlet"],
          mode="conc", runs=60, gsecs=40)
def found(g):
    """Any operator of the catalogue, with its fields put on the ends of any topology: the
    completion has one term for every vertex, of the fields that meet there, neutral and
    without free indices; its exotic fields have the quantum numbers of what flows
    through their lines; its outer fields are the operator's. It fails exactly where
    fermions of opposite handedness meet or a coupling vanishes."""
    eff, _ = catalogue(g)
    op = eff[g.pick("op", range(len(eff)))]
    data = drawn(g, op)
    judge(g, op, data, g.fn(K + "partition_completion")(data))


@contract(P, covers=[K + "partition_completion", K + "process_derivative_term", K + "derivative_combinations", K + "operator_completions"], mode="conc", runs=40, gsecs=40)
def found_with_derivatives(g):
    """The same for operators with derivatives: no derivative is left in a term."""
    _, der = catalogue(g)
    op = der[g.pick("op", range(len(der)))]
    combos = g.fn(K + "derivative_combinations")(op)
    op = combos[g.pick("combination", range(len(combos)))]
    data = drawn(g, op)
    judge(g, op, data, g.fn(K + "partition_completion")(data))


@contract(P, covers=[K + "completions", K + "partitions", K + "operator_completions", K + "deriv_operator_completions"], mode="conc", exhaustive=True, gsecs=60)
def dispatched(g):
    """Operators with derivatives are completed for every way the derivatives can act,
    others as they are."""
    eff, der = catalogue(g)
    ops = eff + der
    op = ops[g.pick("op", range(len(ops)))]
    seen = []
    g.callee(K + "operator_completions", lambda o, *a, **k: seen.append("plain") or [])
    g.callee(K + "deriv_operator_completions", lambda o, *a, **k: seen.append("derivatives") or [])
    list(g.fn(K + "completions")(op))
    g.ensure("which", seen == ["derivatives" if any(f.derivs for f in op.fields) else "plain"])


@contract(P, covers=[K + "completions", K + "partitions", K + "operator_completions", K + "deriv_operator_completions", K + "partition_completion"], mode="conc", exhaustive=True, gsecs=40)
def whole_operators(g):
    """All completions of small operators, one after another."""
    eff, der = catalogue(g)
    ops = [o for o in eff + der if o.name in ("1", "2", "3a", "4a", "8", "D2a")]
    op = ops[g.pick("op", range(len(ops)))]
    comps = list(itertools.islice(g.fn(K + "completions")(op), 24))
    Leaf = g.fn(T + "Leaf")
    g.ensure("some", len(comps) > 0)
    for c in comps:
        fs = [l.field for l in leaves(c.partition, Leaf)]
        g.ensure("fields of the operator", content(fs) == content(op.fields))
        judge(g, EffOf(op, fs), {"partition": c.partition, "graph": c.graph}, c)


class EffOf:
    """An operator as its fields lie on the ends (derivatives moved)."""

    def __init__(self, op, fs):
        self.name, self.fields = op.name, fs


@contract(P, covers=[K + "replace_and_mutate", K + "contains_only_leaves"], secs=40)
def passed_on(g):
    """A vertex with one leaf is that leaf, a vertex with failed leaves is the first of
    them, and neither changes the terms, edges or epsilons."""
    Leaf = g.fn(T + "Leaf")
    n = g.pick("leaves", [1, 2, 3, 4])
    failed = [k for k in range(n) if g.pick(f"failed{k}", [0, 1])]
    if n > 1 and not failed:
        failed = [n - 1]
    leaves = tuple(Leaf(("why", k) if k in failed else ("field", k), None if k in failed else g.int(f"n{k}", 0, 2000)) for k in range(n))
    eps, lor, terms, edges, names = ["e"], ["l"], ["t"], {"k": ["x"]}, {"f": "s"}
    got = g.fn(K + "replace_and_mutate")(leaves=leaves, symbols={}, gauge_epsilons=eps, lorentz_epsilons=lor, terms=terms, edge_dict=edges, field_dict=names, graph=None)
    want = leaves[failed[0]] if failed else leaves[0]
    g.ensure("that leaf", got[0] == want[0] and (got[1] is None if failed else got[1] == want[1]))
    g.ensure("nothing else", (eps, lor, terms, edges, names) == (["e"], ["l"], ["t"], {"k": ["x"]}, {"f": "s"}))
    only = g.fn(K + "contains_only_leaves")
    g.ensure("only leaves", only(leaves) is True and only(leaves + (leaves,)) is False and only(want) is False)
