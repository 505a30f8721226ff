"""Topology data."""

import os
from functools import lru_cache
from itertools import combinations_with_replacement

from vx.harness import contract

LEVEL = "exploration"
P = "C14"
T = "completions.topologies."
K = "completions.completions."
PRELOAD = ("completions.topologies", "completions.completions")
ASSUMES = ("the data files read are those of the working tree",)
EXPLAIN = "every data file of the working tree is read with the real functions and compared with an independent enumeration of trees; the parser is under contract for free node numbers"


# ---- independent enumeration of trees -------------------------------------------------


@lru_cache(None)
def rooted(s, f):
    """Subtrees with s scalar and f fermion leaves, as (kind, sorted children)."""
    if s + f == 1:
        return frozenset([("S",) if s else ("F",)])
    out = set()
    for n in (2, 3):
        for kids in forests(s, f, n, None):
            k = vertex_rest([c[0] for c in kids])
            if k:
                out.add((k, kids))
    return frozenset(out)


def vertex_rest(kinds):
    """Statistics of the remaining line of a vertex with these lines, if there is one."""
    nf = kinds.count("F")
    if len(kinds) == 2:
        return {0: "S", 1: "F", 2: "S"}[nf]
    return "S" if nf == 0 else None


@lru_cache(None)
def forests(s, f, n, _):
    """Multisets of n subtrees with s and f leaves in all."""
    if n == 1:
        return frozenset((t,) for t in rooted(s, f))
    out = set()
    for a in range(s + 1):
        for b in range(f + 1):
            if 0 < a + b < s + f:
                for t in rooted(a, b):
                    for rest in forests(s - a, f - b, n - 1, _):
                        out.add(tuple(sorted((t,) + rest)))
    return frozenset(out)


def trees(s, f):
    """Canonical forms of all trees with vertices SSS, SFF and SSSS and an inner line."""
    out = set()
    for n in (3, 4):
        for kids in forests(s, f, n, None):
            kinds = sorted(c[0] for c in kids)
            if all(len(c) == 1 for c in kids):
                continue  # the operator itself: no exotic field
            if "".join(kinds) in ("SSS", "FFS", "SSSS"):
                out.add(canonical(*as_graph(kids)))
    return out


def as_graph(kids):
    adj, leaf, count = {}, {}, [0]

    def add(t):
        n = count[0]
        count[0] += 1
        adj[n] = []
        if len(t) == 1:
            leaf[n] = t[0]
        else:
            for c in t[1]:
                m = add(c)
                adj[n].append(m)
                adj[m].append(n)
        return n

    add(("root", kids))
    return adj, leaf


def canonical(adj, leaf):
    def form(n, up):
        if n in leaf:
            return (leaf[n],)
        return tuple(sorted((form(m, n) for m in adj[n] if m != up), key=repr))

    return min((form(n, None) for n in adj if n not in leaf), key=repr)


# ---- contracts ----------------------------------------------------------------------


def classes(g):
    files = os.listdir(os.path.join(os.path.dirname(g.mod("completions.topologies").__file__), "topology_data", "partitions"))
    out = {}
    for x in files:
        c, _, rest = x.partition("_")
        s, _, f = c.partition("s")
        out.setdefault((int(s), int(f.rstrip("f"))), []).append(x)
    return out


def sorted_classes(g):
    c = classes(g)
    return sorted(c, key=lambda k: (sum(k), k))


def leaves(p, Leaf):
    if isinstance(p, Leaf):
        return [p]
    return [x for q in p for x in leaves(q, Leaf)]


def check_topology(g, t, s, f, Leaf):
    import networkx as nx

    p, G = t["partition"], t["graph"]
    ls = leaves(p, Leaf)
    g.ensure("leaves", sorted(l.field for l in ls) == ["F"] * f + ["S"] * s)
    nodes = [l.node for l in ls]
    g.ensure("each node once", len(set(nodes)) == len(nodes))
    g.ensure("tree", nx.is_tree(G))
    g.ensure("leaves of the graph", sorted(n for n in G if G.degree(n) == 1) == sorted(nodes))
    edge = g.fn(K + "get_connecting_edge")

    def reduce(q, top=False):
        """(node, statistics) of a part of the partition, as the completion code does."""
        if isinstance(q, Leaf):
            return q.node, q.field
        kids = [reduce(x) for x in q]
        kinds = [k for _, k in kids]
        if top:
            common = set(G.neighbors(kids[0][0])).intersection(*[set(G.neighbors(n)) for n, _ in kids[1:]])
            g.ensure("last vertex", len(common) == 1 and G.degree(list(common)[0]) == len(kids))
            g.ensure("couplings", "".join(sorted(kinds)) in ("SSS", "FFS", "SSSS"))
            return None
        a, b = edge(G, [n for n, _ in kids])
        rest = vertex_rest(kinds)
        g.ensure("couplings", rest is not None and len(kids) in (2, 3))
        g.ensure("edge", G.has_edge(a, b) and all(G.has_edge(n, a) for n, _ in kids) and G.degree(a) == len(kids) + 1)
        return a, rest

    reduce(p, True)
    return canonical({n: list(G.neighbors(n)) for n in G}, {l.node: l.field for l in ls})


@contract(P, covers=[T + "get_topology_data", T + "eval_partition", T + "eval_graph", T + "read_topology_file", K + "get_connecting_edge"], mode="conc", exhaustive=True, gsecs=60)
def data(g):
    """Every data file: the partition has the right leaves, each on its own end of the
    graph, the graph is a tree, and each nested part belongs to one vertex that is SSS,
    SFF or SSSS; per class every such tree with an inner line occurs exactly once, and all files are
    read."""
    cl = g.pick("class", sorted_classes(g))
    s, f = cl
    g.assume(s + f <= 12)
    Leaf = g.fn(T + "Leaf")
    ts = g.fn(T + "get_topology_data")(s, f)
    g.ensure("all files", len(ts) == len(classes(g)[cl]))
    g.ensure("own file", len({t["partition_file"] for t in ts}) == len(ts) and all(os.path.basename(t["partition_file"]).startswith(f"{s}s{f}f_") for t in ts))
    forms = [check_topology(g, t, s, f, Leaf) for t in ts]
    g.ensure("different", len(set(forms)) == len(forms))
    want = trees(s, f)
    g.ensure("all of them", set(forms) == want)


@contract(P, covers=[T + "get_topology_data"], mode="conc", exhaustive=True)
def missing(g):
    """A class without data is refused."""
    n = g.pick("class", [(0, 3), (1, 1), (1, 3), (9, 8)])
    g.assume(n not in classes(g))
    g.expect("refused", Exception, g.fn(T + "get_topology_data"), *n)


@contract(P, covers=[T + "eval_graph", T + "eval_partition"], mode="conc", runs=300)
def parsed(g):
    """The text of a graph gives exactly its edges, the text of a partition the nested
    tuple of leaves."""
    n = g.int("n", 1, 6)
    edges = [(g.int(f"a{k}", 1, 99), 100 + g.int(f"b{k}", 1, 99)) for k in range(n)]
    G = g.fn(T + "eval_graph")("\n".join(f"{a},{b}" for a, b in edges) + ("\n" if g.bool("nl") else ""))
    g.ensure("edges", {frozenset(e) for e in G.edges} == {frozenset(e) for e in edges})
    Leaf = g.fn(T + "Leaf")

    def build(name, depth):
        k = g.pick(name, ["S", "F", "List"] if depth else ["S", "F"])
        if k == "List":
            kids = [build(f"{name}.{q}", depth - 1) for q in range(2)]
            return "List(" + ",".join(t for t, _ in kids) + ")", tuple(v for _, v in kids)
        i = g.int(name + "n", 1, 9999)
        return f"{k}({i})", Leaf(k, i)

    kids = [build(f"k{q}", 2) for q in range(3)]
    got = g.fn(T + "eval_partition")("List(" + ",".join(t for t, _ in kids) + ")")
    g.ensure("partition", got == tuple(v for _, v in kids))
    g.ensure("leaves", all(isinstance(x, Leaf) for x in leaves(got, Leaf)))
