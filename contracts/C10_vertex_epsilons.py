"""The epsilons contracted at a vertex."""

import itertools

from contracts.C06_su2 import tensor_of, has
from contracts.lib import stat
from vx.harness import contract

LEVEL = "proof"
P = "C10"
K = "completions.completions."
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "completions.core", "tensormethod.contract", "completions.completions", "completions.operators")
ASSUMES = (
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (free indices, products)",
    "indices of the fields have different names; at most one free Lorentz index of each type per field (two for a differentiated field of spin 21 or 12)",
)


def fld(g, name, shape, derivs, distinct):
    """An indexed field with free index names; derivs derivatives."""
    IF = g.fn(M + "IndexedField")
    labs = []
    for k, t in enumerate(sorted(shape, key="udcki".index)):
        r = g.text(f"{name}{k}", only="0123456789", lo=1)
        ty = "c" if t == "k" else t
        for ty2, r2 in distinct:
            if ty2 == ty:
                g.assume(g.neg(r == r2))
        distinct.append((ty, r))
        labs.append(("-" if t == "k" else "") + ty + r)
    spin = shape.count("u") + shape.count("d")
    return IF("D" * derivs + name, g.join(" ", labs), charges={"y": g.real(name + "_y")}, derivs=derivs, latex="x",
              comm=stat(g, [spin, 0]))


KINDS = {"S": ("", 0), "Si": ("i", 0), "Fu": ("u", 0), "Fd": ("di", 0), "DS": ("udi", 1), "DFu": ("uc", 1), "DFd": ("d", 1), "DDS": ("", 2), "DF21": ("uud", 1)}
LOR = lambda shape: (shape.count("u"), shape.count("d"))


def pick_fields(g, n, kinds):
    """Every multiset in every order, as picks."""
    distinct = []
    names = [g.pick(f"k{j}", kinds) for j in range(n)]
    return [fld(g, "ABCD"[j], *KINDS[k], distinct) for j, k in enumerate(names)], names


def check(g, fs, names, got):
    u = [i for f in fs for i in f.indices if i.index_type == "Undotted"]
    d = [i for f in fs for i in f.indices if i.index_type == "Dotted"]
    ok, eps = got
    vector = len(u) % 2 == 1 and len(d) % 2 == 1
    g.ensure("allowed unless a vector is left", bool(ok) == (not vector))
    if vector:
        g.ensure("no epsilons", len(eps) == 0)
        return
    g.ensure("as low as possible", len(eps) == len(u) // 2 + len(d) // 2)
    used = []
    for e in eps:
        g.ensure("lowered", len(e.indices) == 2 and not any(bool(i.is_up) for i in e.indices))
        a, b = [-i for i in e.indices]
        g.ensure("indices of the fields, of one type", (has(u, a) and has(u, b)) or (has(d, a) and has(d, b)))
        g.ensure("each once", not has(used, a) and not has(used, b) and not bool(a == b))
        used += [a, b]


@contract(P, covers=[K + "get_lorentz_epsilons"], world="ghost", secs=60)
def two_fields(g):
    """Two fields, with or without derivatives: allowed exactly when what is left is no
    vector; the epsilons join as many indices of each type as possible, each once;
    more than two derivatives are refused."""
    fs, names = pick_fields(g, 2, list(KINDS))
    n = sum(KINDS[k][1] for k in names)
    f = g.fn(K + "get_lorentz_epsilons")
    if n > 2:
        g.expect("refused", Exception, f, fs)
        return
    check(g, fs, names, f(fs))


@contract(P, covers=[K + "get_lorentz_epsilons", K + "drop_scalar", K + "all_scalars", K + "all_fermions"], world="ghost", secs=60)
def three_fields(g):
    """Three fields without derivatives: scalars need no epsilon, three fermions are
    not allowed, two fermions with a scalar (in any place) are contracted as the
    pair; with derivatives all indices are paired as far as possible."""
    fs, names = pick_fields(g, 3, ["S", "Fu", "Fd", "DS", "DFd"] + (["Si", "DFu", "DDS"] if g.thorough else []))
    n = sum(KINDS[k][1] for k in names)
    f = g.fn(K + "get_lorentz_epsilons")
    if n > 2:
        g.expect("refused", Exception, f, fs)
        return
    nf = sum(k[0] == "F" for k in names)
    if n == 0:
        if nf == 0:
            got = f(fs)
            g.ensure("scalars", bool(got[0]) and len(got[1]) == 0)
        elif nf == 3:
            got = f(fs)
            g.ensure("fermions", not bool(got[0]) and len(got[1]) == 0)
        elif nf == 2:
            check(g, fs, names, f(fs))
        else:
            g.expect("no vertex", AssertionError, f, fs)
        return
    before = list(fs)
    check(g, fs, names, f(fs))
    g.ensure("fields left in place", len(before) == len(fs) and all(a is b for a, b in zip(before, fs)))


@contract(P, covers=[K + "get_lorentz_epsilons"], world="ghost")
def four_scalars(g):
    """Four scalars without derivatives need no epsilon."""
    fs, names = pick_fields(g, 4, ["S", "Si"])
    ok, eps = g.fn(K + "get_lorentz_epsilons")(fs)
    g.ensure("four scalars", bool(ok) and len(eps) == 0)


# ---- gauge epsilons ---------------------------------------------------------------


def spec(g, e, free):
    """Is e contracted on these indices?  (free grows as the code's list does)"""
    hit = [i for i in e if has(free, -i)]
    if len(e) == 2:
        return len(hit) == 2
    if len(hit) == 2:
        free.append([i for i in e if not has(free, -i)][0])
        return True
    return len(hit) == 3


@contract(P, covers=[K + "separate_gauge_epsilons", K + "is_contracted_epsilon"], world="ghost", secs=80)
def separated(g):
    """The epsilons and deltas whose indices (two of three for the colour epsilon) are
    all indices of the fields are contracted, the others are spectators; every one is
    in exactly one of the two lists, in order."""
    distinct = []
    shapes = g.pick("fields", [("i", "i"), ("ci", "k"), ("c", "c"), ("c", "c", "c"), ("ii", "i"), ("k", "ci"), ("i", "", "i"), ("cc", "c")], quick=4)
    fs = [fld(g, "ABC"[j], s, 0, distinct) for j, s in enumerate(shapes)]
    rest = fld(g, "R", g.pick("rest", ["i", "c", "ck", "ii", "ick"], quick=3), 0, distinct)
    eps, delta = g.fn(M + "eps"), g.fn(M + "delta")
    pool = {}
    for f in fs + [rest]:
        for i in f.indices:
            pool.setdefault((i.index_type, bool(i.is_up)), []).append(i)
    made, count = [], itertools.count()
    iso = pool.get(("Isospin", True), [])
    for a, b in itertools.combinations(iso, 2):
        if g.bool(f"e{next(count)}"):
            made.append(eps(g.join(" ", [g.str(-a), g.str(-b)])))
    up, dn = pool.get(("Colour", True), []), pool.get(("Colour", False), [])
    for a in up:
        for b in dn:
            if g.bool(f"d{next(count)}"):
                made.append(delta(g.join(" ", [g.str(-b), g.str(-a)])))
    for tri in itertools.combinations(up, 3):
        made.append(eps(g.join(" ", [g.str(-a) for a in tri])))
    before = list(made)
    spect, contracted = g.fn(K + "separate_gauge_epsilons")(fs, made)
    free = [i for f in fs for i in f.indices]
    want = [spec(g, e.indices, free) for e in before]
    g.ensure("contracted", len(contracted) == sum(want) and all(x is y for x, y in zip(contracted, [e for e, w in zip(before, want) if w])))
    g.ensure("spectators", len(spect) == len(before) - sum(want) and all(x is y for x, y in zip(spect, [e for e, w in zip(before, want) if not w])))
    g.ensure("given list kept", len(made) == len(before) and all(x is y for x, y in zip(made, before)))


@contract(P, covers=[K + "separate_gauge_epsilons", K + "is_contracted_epsilon"], world="ghost", secs=80)
def chained(g):
    """An epsilon with two colour indices on the fields leaves its third one free: an
    epsilon after it may be contracted with that."""
    distinct = []
    shapes = g.pick("fields", [("c", "c", "k"), ("ck", "c"), ("c", "ck", "k"), ("c", "c")])
    fs = [fld(g, "ABC"[j], s, 0, distinct) for j, s in enumerate(shapes)]
    rest = fld(g, "R", "k", 0, distinct)
    eps, delta = g.fn(M + "eps"), g.fn(M + "delta")
    up = [i for f in fs for i in f.indices if i.is_up]
    dn = [i for f in fs + [rest] for i in f.indices if not i.is_up]
    name = g.text("z", lo=1, only="0123456789")
    for ty, r in distinct:
        if ty == "c":
            g.assume(g.neg(name == r))
    z = g.fn(M + "Index")("-c" + name)
    S = lambda *xs: g.join(" ", [g.str(x) for x in xs])
    made = [eps(S(-up[0], -up[1], z))]
    if g.bool("delta"):
        made.append(delta(S(-z, -up[0])))
    elif len(dn) > 1:
        made.append(eps(S(-z, -dn[0], -dn[1])))
    if g.bool("swap"):
        made.reverse()
    spect, contracted = g.fn(K + "separate_gauge_epsilons")(fs, list(made))
    free = [i for f in fs for i in f.indices]
    want = [spec(g, e.indices, free) for e in made]
    g.ensure("contracted", len(contracted) == sum(want) and all(x is y for x, y in zip(contracted, [e for e, w in zip(made, want) if w])))
    g.ensure("spectators", len(spect) == len(made) - sum(want) and all(x is y for x, y in zip(spect, [e for e, w in zip(made, want) if not w])))


@contract(P, covers=[K + "separate_gauge_epsilons", K + "get_lorentz_epsilons", M + "Operator.__mul__"], mode="conc", runs=400)
def product(g):
    """With sympy's tensors: the fields of a vertex times their epsilons have spin at
    most one half, and exactly those gauge indices left that no contracted epsilon
    joins."""
    distinct = []
    n = g.pick("n", [2, 2, 3])
    kinds = ["S", "Si", "Fu", "Fd", "DS", "DFu", "DFd"]
    names = [g.pick(f"k{j}", kinds) for j in range(n)]
    nf, nd = sum("F" in k for k in names), sum(KINDS[k][1] for k in names)
    g.assume(nd <= 2 and (n == 2 or nf in (0, 2)))
    fs = []
    cols = []
    for j, k in enumerate(names):
        sh, dv = KINDS[k]
        c = g.pick(f"c{j}", ["", "c", "k"])
        fs.append(fld(g, "ABC"[j], sh.replace("c", "") + c, dv, distinct))
    ok, eps = g.fn(K + "get_lorentz_epsilons")(fs)
    g.assume(ok)
    iso = [i for f in fs for i in f.indices if i.index_type == "Isospin"]
    col = [i for f in fs for i in f.indices if i.index_type == "Colour"]
    gauge = []
    e, d = g.fn(M + "eps"), g.fn(M + "delta")
    if len(iso) > 1 and g.bool("join"):
        gauge.append(e(f"-{iso[0]} -{iso[1]}"))
    elif iso:
        gauge.append(e(f"-{iso[0]} -i987"))
    up, dn = [i for i in col if i.is_up], [i for i in col if not i.is_up]
    joined = 0
    if up and dn:
        gauge.append(d(f"{-dn[0]} {-up[0]}"))
        joined = 1
    elif up:
        gauge.append(d(f"c988 {-up[0]}"))
    spect, contr = g.fn(K + "separate_gauge_epsilons")(fs, gauge)
    prod = fs[0]
    for x in [*fs[1:], *eps, *contr]:
        prod = prod * x
    t = {k: len(v) for k, v in prod.indices_by_type.items()}
    g.ensure("spin", t["Undotted"] + t["Dotted"] <= 1)
    g.ensure("isospin", t["Isospin"] == len(iso) - 2 * sum(1 for x in contr if x.indices[0].index_type == "Isospin"))
    g.ensure("colour", t["Colour"] == len(col) - 2 * joined)
    g.ensure("free ones are the fields'", all(any(i == j for f in fs for j in f.indices) for i in prod.free_indices))
