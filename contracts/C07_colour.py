"""Colour singlets."""

import itertools
import math
import random

from contracts import numeric
from contracts.C06_su2 import tensor_of, has
from contracts.groups import products
from vx.harness import contract

LEVEL = "proof"
P = "C07"
K = "tensormethod.contract."
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.contract")
ASSUMES = (
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (free indices, products)",
    "indices of the factors have different names",
)


def operator(g, shapes):
    seen = []
    ts = [tensor_of(g, "ABCDEF"[k], s, seen) for k, s in enumerate(shapes)]
    op = ts[0]
    for t in ts[1:]:
        op = op * t
    return op


CASES = {
    (0, 0): ["ui", "ui"], (1, 1): ["uc", "uk"], (2, 2): ["uc", "ck", "k"], (3, 0): ["uc", "c", "ci"], (0, 3): ["k", "uk", "k"],
    (1, 0): ["uc", "i"], (2, 1): ["uc", "ck"], (0, 2): ["k", "k"], (4, 1): ["cc", "cck"], (3, 3): ["c", "c", "c", "k", "k", "k"],
}


@contract(P, covers=[K + "colour_singlets", M + "delta", M + "eps"], world="ghost", secs=80)
def singlets(g):
    """n raised and n lowered colour indices (n = 0, 1, 2): the n! ways of joining
    each raised to a lowered one by deltas, each once; three raised or three lowered:
    one epsilon; other numbers: refused.  No colour index is left free, all other
    indices stay free, the fields stay."""
    key = g.pick("case", [k for k in CASES if k != (3, 3)])
    n, m = key
    op = operator(g, CASES[key])
    before = op.get_free_indices()
    ups = [i for i in before if i.index_type == "Colour" and bool(i.is_up)]
    downs = [i for i in before if i.index_type == "Colour" and not bool(i.is_up)]
    f = g.fn(K + "colour_singlets")
    if n != m and key not in ((3, 0), (0, 3)):
        g.expect("refused", ValueError, f, [op])
        return
    res = f([op])
    g.ensure("number", len(res) == (1 if n != m else math.factorial(n)))
    joined = []
    for r in res:
        free = r.get_free_indices()
        g.ensure("no free colour index", not [i for i in free if i.index_type == "Colour"])
        g.ensure("others free", g.all([len(free) == len(before) - n - m] + [has(free, i) for i in before if i.index_type != "Colour"]))
        inv = [x for x in r.tensors if type(x).__name__ != "IndexedField"]
        g.ensure("fields", [x.label for x in r.indexed_fields] == [x.label for x in op.indexed_fields])
        if n != m:
            g.ensure("one epsilon on all three", len(inv) == 1 and len(inv[0].indices) == 3 and all(has(inv[0].indices, -i) for i in ups + downs))
            continue
        g.ensure("one delta per pair", len(inv) == n)
        pairs = []
        for d in inv:
            a, b = d.indices
            g.ensure("delta", str(d.component).startswith("KD") and bool(a.is_up) and not bool(b.is_up))
            g.ensure("joins a lowered to a raised index", has(downs, -a) and has(ups, -b))
            pairs.append((-a, -b))
        if n == 2:
            for q in joined:
                same = all(any(bool(x[0] == y[0]) and bool(x[1] == y[1]) for y in q) for x in pairs)
                g.ensure("all different", not same)
            joined.append(pairs)


@contract(P, covers=[K + "colour_singlets"], world="ghost", secs=60)
def overcomplete(g):
    """With the overcomplete flag, two pairs also give the product of two epsilons
    joined by a new index; one pair gives nothing more; every operator of a list alike."""
    n = g.pick("n", [1, 2])
    op = operator(g, CASES[(n, n)])
    before = op.get_free_indices()
    twice = g.pick("operators", [1, 2])
    res = g.fn(K + "colour_singlets")([op] * twice, overcomplete=True)
    g.ensure("number", len(res) == twice * {1: 1, 2: 3}[n])
    if n == 2:
        inv = [x for x in res[-1].tensors if type(x).__name__ != "IndexedField"]
        g.ensure("two epsilons", len(inv) == 2 and all(len(e.indices) == 3 for e in inv))
        g.ensure("closed", not [i for i in res[-1].get_free_indices() if i.index_type == "Colour"])


@contract(P, covers=[K + "colour_singlets"], mode="conc", runs=250, gsecs=40)
def real(g):
    """With sympy's tensors: every result is a product of invariants without free
    colour index and invariant under SL(3); each operator of a list is contracted
    on its own; distinct results are linearly independent for up to two pairs and
    span all singlets for up to three."""
    F = g.fn(M + "Field")
    ops, counts = [], []
    for j in range(g.int("operators", 1, 2)):
        n = g.int(f"pairs{j}", 0, 3) if g.int(f"kind{j}", 0, 3) else -1
        cols = ["10"] * n + ["01"] * n if n >= 0 else [["10"] * 3, ["01"] * 3][g.int(f"which{j}", 0, 1)]
        order = list(range(len(cols)))
        for k in range(len(cols)):
            q = g.int(f"o{j}{k}", 0, len(cols) - 1)
            order[k], order[q] = order[q], order[k]
        fs = [F("ABCDEF"[k], "00" + cols[o] + "0") for k, o in enumerate(order)] or [F("A", "00000")]
        fs = fs + [F("X", "00000")]
        op = fs[0].fresh_indices()
        for f in fs[1:]:
            op = op * f.fresh_indices()
        ops.append(op)
        counts.append((n, [f.dynkin_ints for f in fs]))
    f = g.fn(K + "colour_singlets")
    each = [f([op]) for op in ops]
    every = f(ops)
    g.ensure("one after another", [str(sorted(map(str, x.indexed_fields))) for x in every] == [str(sorted(map(str, x.indexed_fields))) for l in each for x in l])
    rng = random.Random(7)
    for (n, ds), res in zip(counts, each):
        for r in res:
            g.ensure("well formed", not numeric.well_formed(r))
        g.ensure("invariant", numeric.is_invariant(res[0], rng, 1) and numeric.is_invariant(res[-1], rng, 1))
        g.ensure("number", len(res) == {-1: 1, 0: 1, 1: 1, 2: 2, 3: 7}[n])
        rank = numeric.span_rank(res, rng)
        g.ensure("span", rank == products(ds).get((0, 0, 0, 0, 0), 0))
        if n < 3:
            g.ensure("independent", rank == len(res))
