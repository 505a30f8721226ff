"""Copies of indices, fields, operators and completions."""

import copy
import itertools
import pickle

from contracts.C12_exotics import make
from contracts.C24_export import same_tensor
from contracts.C25_catalogue import some_field, some_operator
from contracts.lib import ilabel
from vx.harness import contract

LEVEL = "proof"
P = "C30"
M = "tensormethod.core."
C = "completions.core."
K = "completions.completions."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.lnv", "completions.core", "completions.topologies", "completions.completions", "completions.operators")
ASSUMES = (
    "copy.deepcopy by its documented protocol (it runs as it is)",
    "indices and fields of the shapes of C12 and C25",
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (bounded part: sympy itself)",
)
WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}


@contract(P, covers=[M + "Index.__reduce_ex__", M + "Index.__new__", M + "Index.label"], world="ghost", secs=40, runs=200)
def index_copied(g):
    """A copy of an index is the same index: type, name, position and label."""
    s, t, r, lab = ilabel(g, "i")
    i = g.fn(M + "Index")(lab)
    way = g.pick("way", ["copy", "deepcopy"] if g.symbolic else list(WAYS))
    j = WAYS[way](i)
    g.ensure("class", type(j) is type(i))
    g.ensure("equal", g.all([j == i, i == j]))
    g.ensure("label", g.all([j.label == lab, i.label == lab]))
    g.ensure("position", g.all([g.iff(j.is_up, s == ""), j.name == i.name, j.index_type == i.index_type]))


@contract(P, covers=[M + "IndexedField.__deepcopy__", M + "IndexedField._dict"], world="ghost", secs=60, runs=200)
def field_copied(g):
    """A copy of an indexed field equals it in every part, is an object of its own with
    charges of its own, and has the indices' symmetry."""
    f, ix = some_field(g, "f", [], shapes=["ui", "ii", "uii", "-c-ci", "c-c", "cc", ""])
    if g.bool("made directly"):  # the symmetry is then that of the head only
        f = g.fn(M + "IndexedField")(f.label, g.join(" ", [g.str(i) for i in f.indices]), charges=f.charges, is_conj=f.is_conj, latex="x")
    h = copy.deepcopy(f)
    g.ensure("its own", h is not f and type(h) is type(f))
    g.ensure("parts", same_tensor(g, h, f))
    g.ensure("equal", g.all([h == f, f == h]))
    g.ensure("stripped", g.eq(h.stripped, f.stripped))
    g.ensure("charges of its own", h.charges is not f.charges)
    g.ensure("symmetry", head(g, h) == head(g, f))
    was = dict(f.charges)
    h.charges["y"] = h.charges["y"] + 1
    g.ensure("independent", g.eq(f.charges, was))


def head(g, t):
    """The permutation symmetry of the tensor head."""
    h = t.args[0]
    return h.sym if hasattr(h, "sym") else h.symmetry


@contract(P, covers=[C + "FieldType.__deepcopy__"], world="ghost", secs=120, runs=200)
def exotic_copied(g):
    """A copy of an exotic field is of its class, equals it in every part (the bar too),
    and is independent of it."""
    cls, x, ix, ch, lab = make(g)
    c = copy.deepcopy(x)
    g.ensure("its own", c is not x and type(c) is type(x))
    g.ensure("parts", same_tensor(g, c, x))
    g.ensure("equal", g.all([c == x, x == c]))
    g.ensure("symmetry", head(g, c) == head(g, x))
    was = dict(x.charges)
    c.charges["y"] = c.charges["y"] + 1
    g.ensure("independent", g.eq(x.charges, was))


@contract(P, covers=[M + "Operator.__deepcopy__"], world="ghost", secs=120, runs=200)
def operator_copied(g):
    """A copy of an operator is the product of copies of its fields with its epsilons and
    deltas, in order, and equals it."""
    op, ts = some_operator(g)
    if g.pick("squared", [False, True], quick=1):
        s = g.fn(M + "Field")("S", "00000", charges={"y": 1}, latex="x")("")
        op = g.fn(M + "Operator")(s, s, *op.tensors)
    c = copy.deepcopy(op)
    g.ensure("class", c is not op and type(c) is type(op))
    a, b = c.tensors, op.tensors
    g.ensure("as many", len(a) == len(b))
    g.ensure("parts", g.all(same_tensor(g, p, q) for p, q in zip(a, b)))
    F = g.fn(M + "IndexedField")
    g.ensure("own fields", all(p is not q for p, q in zip(a, b) if isinstance(q, F)))
    g.ensure("free indices", g.all([len(c.free_indices) == len(op.free_indices)] + [p == q for p, q in zip(c.free_indices, op.free_indices)]))


@contract(P, covers=[C + "Completion.__deepcopy__", C + "FieldType.__deepcopy__", M + "Operator.__deepcopy__", M + "IndexedField.__deepcopy__", M + "Index.__reduce_ex__"], mode="conc", exhaustive=True, gsecs=40)
def completion_copied(g):
    """A copy of a completion has the same operator, partition, diagram, exotic fields
    and terms, all its own, and counts as the same completion."""
    O = g.mod("completions.operators")
    ops = [o for d in (O.EFF_OPERATORS, O.DERIV_EFF_OPERATORS) for o in d.values() if o.name in ("1", "2", "4a", "8", "D2a")]
    op = ops[g.pick("op", range(len(ops)))]
    for c in itertools.islice(g.fn(K + "completions")(op), 6):
        d = copy.deepcopy(c)
        g.ensure("operator", d.operator.name == c.operator.name and all(same_tensor(g, a, b) for a, b in zip(d.operator.operator.tensors, c.operator.operator.tensors)))
        g.ensure("partition", d.partition == c.partition)
        g.ensure("topology", d.topology == c.topology)
        g.ensure("same summary", d.exotic_info() == c.exotic_info())
        g.ensure("exotics", len(d.exotics) == len(c.exotics) and all(any(type(x) is type(y) and x is not y and same_tensor(g, x, y) for x in d.exotics) for y in c.exotics))
        g.ensure("terms", len(d.terms) == len(c.terms))
        for s, t in zip(d.terms, c.terms):
            g.ensure("a term's parts", s is not t and len(s.tensors) == len(t.tensors) and all(same_tensor(g, a, b) for a, b in zip(s.tensors, t.tensors)))
            g.ensure("a term's own fields", all(a is not b for a, b in zip(s.indexed_fields, t.indexed_fields)))
        g.ensure("diagram", d.graph is not c.graph and set(d.graph.nodes) == set(c.graph.nodes) and set(map(frozenset, d.graph.edges)) == set(map(frozenset, c.graph.edges)))
        for a, b in c.graph.edges:
            g.ensure("a line's name", d.graph.edges[a, b] == c.graph.edges[a, b])
