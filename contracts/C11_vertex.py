"""Contracting the fields of a vertex into an exotic field and its coupling."""

import random

from contracts import numeric
from contracts.C06_su2 import has
from contracts.lib import stat
from vx.harness import contract

LEVEL = "proof"
P = "C11"
K = "completions.completions."
M = "tensormethod.core."
C = "completions.core."
PRELOAD = ("tensormethod.core", "completions.core", "tensormethod.contract", "completions.completions", "completions.operators")
ASSUMES = (
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (free indices, products)",
    "the fields of a vertex have different labels (couplings that vanish by symmetry: bounded)",
    "sympy's canonical form finds every product that vanishes (it misses some where copies of a field carry colour and another index)",
    "exotic fields of spin 0 or 1/2; vanishing hypercharge only for self-conjugate representations",
)
LOR = {"u": "Undotted", "d": "Dotted", "c": "Colour", "k": "Colour", "i": "Isospin"}


def fld(g, name, shape, distinct, derivs=0, keys=("y", "3b")):
    IF = g.fn(M + "IndexedField")
    labs = []
    for k, t in enumerate(sorted(shape, key="udcki".index)):
        r = g.text(f"{name}{k}", only="0123456789", lo=1)
        ty = "c" if t == "k" else t
        for ty2, r2 in distinct:
            if ty2 == ty:
                g.assume(g.neg(r == r2))
        distinct.append((ty, r))
        labs.append(("-" if t == "k" else "") + ty + r)
    return IF(name, g.join(" ", labs), charges={k: g.real(f"{name}_{k}") for k in keys}, latex="x",
              comm=stat(g, [shape.count("u") + shape.count("d"), 0]))


SYMBOLS = {"fermion": ["ψ", "χ", "f"], "boson": ["φ", "η", "s"]}
VERTICES = [("u", "i"), ("ui", "ui"), ("uc", "uk"), ("di", "dc"), ("uk", ""), ("d", "i"), ("i", "k"), ("", "c"), ("u", "d"), ("i", "i", ""), ("uc", "i"), ("dk", "d"), ("ic", "ik", "")]


def expected_free(g, fs, iso, col):
    """Free indices of the fields after pairing Lorentz indices and the given gauge pairs."""
    every = [i for f in fs for i in f.indices]
    u = [i for i in every if i.index_type == "Undotted"]
    d = [i for i in every if i.index_type == "Dotted"]
    if len(u) % 2 and len(d) % 2:
        return None
    return [u[-1:] if len(u) % 2 else [], d[-1:] if len(d) % 2 else []]


@contract(P, covers=[K + "contract", K + "exotic_field_and_term", K + "check_singlet", K + "check_charges", C + "cons_completion_field", C + "FieldType.lower_su2"],
          world="ghost", hash=True, secs=100)
def contracted(g):
    """contract: the exotic field has the charges and the free indices of the product of
    the fields with the epsilons contracted; the term is that product times the
    partner of the exotic (conjugate, Dirac partner or itself), neutral and without
    free index; the remaining epsilons are the spectators; a new symbol of the right
    kind is used and remembered.  Vectors are refused."""
    distinct = []
    shapes = g.pick("vertex", VERTICES)
    fs = [fld(g, "ABC"[j], s, distinct) for j, s in enumerate(shapes)]
    eps, delta = g.fn(M + "eps"), g.fn(M + "delta")
    iso = [i for f in fs for i in f.indices if i.index_type == "Isospin"]
    up = [i for f in fs for i in f.indices if i.index_type == "Colour" and bool(i.is_up)]
    dn = [i for f in fs for i in f.indices if i.index_type == "Colour" and not bool(i.is_up)]
    gauge, joined = [], []
    if len(iso) > 1 and g.bool("join iso"):
        gauge.append(eps(g.join(" ", [g.str(-iso[0]), g.str(-iso[1])])))
        joined += iso[:2]
    if up and dn and g.bool("join colour"):
        gauge.append(delta(g.join(" ", [g.str(-dn[0]), g.str(-up[0])])))
        joined += [up[0], dn[0]]
    spectator = eps("-i9999 -i9998")
    for i in iso:
        g.assume(g.all([g.neg(i.name == "i9999"), g.neg(i.name == "i9998")]))
    gauge.insert(g.pick("spectator at", [0, len(gauge)]) if gauge else 0, spectator)
    y = sum(f.charges["y"] for f in fs)
    free_gauge = [i for f in fs for i in f.indices if i.index_type in ("Colour", "Isospin") and not has(joined, i)]
    nc = [sum(1 for i in free_gauge if i.index_type == "Colour" and bool(i.is_up) == w) for w in (True, False)]
    ni = sum(1 for i in free_gauge if i.index_type == "Isospin")
    if nc[0] != nc[1] or ni % 2:
        g.assume(g.neg(y == 0))
    symbols = {k: list(v) for k, v in SYMBOLS.items()}
    book = {}
    got = g.fn(K + "contract")(fs, symbols, gauge, book)
    lor = expected_free(g, fs, None, None)
    if lor is None:
        g.ensure("vector refused", isinstance(got, str))
        return
    g.ensure("allowed", not isinstance(got, str))
    x, term, spect, lorentz = got
    nl = [len(lor[0]), len(lor[1])]
    # the exotic field
    for k in ("y", "3b"):
        tot = sum(f.charges[k] for f in fs)
        real = nc[0] == nc[1] and ni % 2 == 0 and bool(y == 0)
        g.ensure("charges added", x.charges[k] == tot)
    dk = [nl[0], nl[1], nc[0], nc[1], ni]
    g.ensure("transforms like the product", x.dynkin == "".join(map(str, dk)))
    g.ensure("free gauge indices", g.all(g.any(i == j for j in x.indices) for i in free_gauge))
    own = [i for f in fs for i in f.indices]
    g.ensure("indices of the fields", g.all(g.any(i == j for j in own) for i in x.indices))
    kind = ("MajoranaFermion" if real else "VectorLikeDiracFermion") if sum(nl) else "RealScalar" if real else "ComplexScalar"
    g.ensure("kind", type(x).__name__ == kind)
    pool = "fermion" if sum(nl) else "boson"
    sym = SYMBOLS[pool][0]
    g.ensure("symbol", x.label == (sym + "†" if nl[1] else sym) and g.iff(x.is_conj, bool(nl[1])))
    g.ensure("symbol taken", symbols[pool] == SYMBOLS[pool][1:] and symbols["boson" if pool == "fermion" else "fermion"] == SYMBOLS["boson" if pool == "fermion" else "fermion"])
    g.ensure("remembered", len(book) == 1 and list(book.values()) == [sym] and sorted(f.label for f in list(book)[0]) == sorted(f.label for f in fs))
    # the term
    tf = [t for t in term.tensors if type(t).__name__ not in ("Tensor", "TensMul")]
    te = [t for t in term.tensors if type(t).__name__ in ("Tensor", "TensMul")]
    g.ensure("fields of the term", len(tf) == len(fs) + 1 and all(any(a is f or bool(a == f) for a in tf) for f in fs))
    p = [a for a in tf if not any(a is f or bool(a == f) for f in fs)]
    if p:
        p = p[0]
        g.ensure("partner", g.all([type(p) is type(x), p.label == {"ComplexScalar": sym + "†", "RealScalar": sym, "MajoranaFermion": x.label}.get(kind, sym + ("~†" if nl[1] else "~"))]))
        g.ensure("partner charges", g.all(p.charges[k] == -x.charges[k] for k in ("y",)))
        if kind == "VectorLikeDiracFermion":
            g.ensure("partner barred", not bool(p.is_unbarred) and bool(x.is_unbarred))
        if kind in ("ComplexScalar", "VectorLikeDiracFermion"):
            g.ensure("neutral", g.all(sum(f.charges[k] for f in tf) == 0 for k in ("y", "3b")))
    g.ensure("no free index", len(term.get_free_indices()) == 0)
    g.ensure("epsilons of the term", len(te) == len(lorentz) + len(gauge) - 1 + sum(nl) + ni)
    g.ensure("spectators", len(spect) == 1 and spect[0] is spectator)
    g.ensure("lorentz epsilons", len(lorentz) == (sum(1 for i in own if i.index_type in ("Undotted", "Dotted")) - sum(nl)) // 2)


@contract(P, covers=[K + "exotic_field_and_term"], world="ghost", hash=True, secs=60)
def same_symbol(g):
    """The same fields in any order give the same symbol again, other fields a new one."""
    distinct = []
    shapes = g.pick("vertex", [("u", "i"), ("i", "k"), ("uc", "i")])
    a, b = fld(g, "A", shapes[0], distinct), fld(g, "B", shapes[1], distinct)
    c = fld(g, "C", shapes[1], distinct)
    for s in (b, c):
        g.assume(g.neg(a.charges["y"] + s.charges["y"] == 0))
    symbols = {k: list(v) for k, v in SYMBOLS.items()}
    book = {}
    f = g.fn(K + "contract")
    x1 = f((a, b), symbols, [], book)[0]
    x2 = f((b, a), symbols, [], book)[0]
    x3 = f((a, c), symbols, [], book)[0]
    g.ensure("same", x1.label == x2.label)
    g.ensure("new", g.neg(x1.label == x3.label))
    g.ensure("two symbols", len(book) == 2)


@contract(P, covers=[K + "exotic_field_and_term"], mode="conc", runs=200)
def symbol_of_a_vertex(g):
    """Two vertices get the same symbol exactly when they join the same fields the same
    number of times."""
    shape = {"A": "", "B": g.pick("B", ["", "i", "k"]), "C": g.pick("C", ["", "i"])}
    F = g.fn(M + "Field")
    ys = {k: g.int("y" + k, 1, 3) for k in shape}
    n = [0]

    def make(l, v):
        n[0] += 1
        ix = {"": "", "i": f"i{n[0]}", "u": f"u{n[0]}", "k": f"-c{n[0]}"}[shape[l]]
        f = F(l, {"": "00000", "i": "00001", "u": "10000", "k": "00010"}[shape[l]], charges={"y": ys[l], "3b": 0}, latex="x", comm=stat(g, [shape[l] == "u", 0]))
        return f(ix)

    def of(v):
        return [make(l.upper(), v) if l.isupper() else make(l.upper(), v).conj for l in v]

    kinds = ["Aa", "aA", "aB", "Ba", "Aab", "aAb", "baA", "AB", "BA", "AAB", "ABA", "BAA", "AC", "ACB", "BCA", "AA", "AAA", "AAC"] + (["ABB", "BB"] if not shape["B"] else [])
    two = [g.pick(f"v{k}", kinds) for k in (0, 1)]
    symbols = {k: list(v) for k, v in SYMBOLS.items()}
    book, xs = {}, []
    for v in two:
        g.assume(v.upper().count("B") * (shape["B"] == "i") + v.count("C") * (shape["C"] == "i") < 2)
        xs.append(g.fn(K + "contract")(of(v), symbols, [], book)[0])
    same = sorted(two[0]) == sorted(two[1])
    g.ensure("same exactly then", (xs[0].label == xs[1].label) == same)
    g.ensure("symbols", len(book) == (1 if same else 2))
    g.ensure("charges", all(x.y == sum(ys[l] if l.isupper() else -ys[l.upper()] for l in v) for x, v in zip(xs, two)))


@contract(P, covers=[K + "exotic_field_and_term", K + "check_charges"], world="ghost", hash=True, secs=60)
def any_charges(g):
    """Charges are added by name: further charges may come in any order, and fields
    with different charges are refused."""
    distinct = []
    keys = [("y", "3b", "l", "z"), ("y", "3b", "z", "l"), ("y", "3b", "l"), ("z", "3b", "y", "l")]
    ks = [g.pick("keysA", keys), g.pick("keysB", keys)]
    shapes = g.pick("vertex", [("u", "i"), ("i", "k"), ("uc", "i")])
    fs = [fld(g, "AB"[j], shapes[j], distinct, keys=ks[j]) for j in (0, 1)]
    y = fs[0].charges["y"] + fs[1].charges["y"]
    g.assume(g.neg(y == 0))
    symbols = {k: list(v) for k, v in SYMBOLS.items()}

    def go():
        return g.fn(K + "contract")(fs, symbols, [], {})

    if len(ks[0]) != len(ks[1]):
        g.expect("different charges", AssertionError, go)
        return
    x, term, _, _ = go()
    for k in ks[0]:
        g.ensure("added by name", x.charges[k] == fs[0].charges[k] + fs[1].charges[k])
        g.ensure("neutral", sum(f.charges[k] for f in term.tensors if type(f).__name__ not in ("Tensor", "TensMul")) == 0)


@contract(P, covers=[K + "check_charges", K + "check_singlet"], world="ghost", secs=60)
def singlet(g):
    """check_singlet accepts a term exactly when every charge but baryon number adds to
    zero and all its free indices are generation indices."""
    distinct = []
    shapes = g.pick("shapes", [("i", "k"), ("", "u"), ("", ""), ("", "", "d"), ("",) * 3, ("",) * 6, ("c", ""), ("k", ""), ("d", "u"), ("i", ""), ("", "i")])
    fs = [fld(g, "ABCDEF"[j], s, distinct, keys=("y", "3b", "l")) for j, s in enumerate(shapes)]
    t = fs[0]
    for f in fs[1:]:
        t = t * f
    neutral = g.all(sum(f.charges[k] for f in fs) == 0 for k in ("y", "l"))
    check = g.fn(K + "check_singlet")
    if any(shapes):
        g.expect("free index", AssertionError, check, t)
    elif bool(neutral):
        check(t)
        g.ensure("accepted", True)
    else:
        g.expect("charged", AssertionError, check, t)


@contract(P, covers=[K + "get_connecting_edge"], mode="both", world="ghost", secs=60)
def connecting_edge(g):
    """The edge of a vertex that joins leaves: from their common neighbour to its
    remaining neighbour."""
    import networkx as nx

    n = g.pick("leaves", [1, 2, 3])
    order = g.pick("order", [0, 1])
    other = g.bool("more")
    G = nx.Graph()
    hub, out = 10, 20
    edges = [(hub, k) for k in range(n)] + [(hub, out)]
    if other:
        edges += [(out, 30), (out, 31), (30, 32), (30, 33)]
    if order:
        edges = [(b, a) for a, b in reversed(edges)]
    G.add_edges_from(edges)
    nodes = list(range(n))
    if order:
        nodes.reverse()
    if n == 1:
        G.add_edge(hub, 5)
        nodes = nodes + [5]
    g.ensure("edge", tuple(g.fn(K + "get_connecting_edge")(G, nodes)) == (hub, out))


def catalogue(g):
    k = "d" + str(id(g.world))
    store = catalogue.__dict__
    if k not in store:
        eff = g.fn("completions.operators.EFF_OPERATORS")
        der = g.fn("completions.operators.DERIV_EFF_OPERATORS")
        store[k] = [v for v in eff.values() if len(v.operator.fields) <= 6], list(der.values())
    return store[k]


@contract(P, covers=[K + "contract", K + "process_derivative_term", K + "exotic_field_and_term", K + "separate_gauge_epsilons"], mode="conc", runs=250, gsecs=30)
def real(g):
    """Vertices made of two or three fields of operators of the catalogue: the term is
    invariant under Lorentz, colour and isospin, neutral and without derivatives,
    holds the fields (stripped) and one exotic, and does not vanish; the exotic has
    the quantum numbers of the product."""
    plain, deriv = catalogue(g)
    ops = deriv if g.pick("deriv", [0, 0, 1]) else plain
    op = ops[g.int("op", 0, 10**6) % len(ops)].operator
    fs = op.indexed_fields
    n = g.pick("n", [2, 2, 3])
    ks = []
    for j in range(n):
        k = g.int(f"f{j}", 0, 10**6) % len(fs)
        g.assume(k not in ks)
        ks.append(k)
    sel = [fs[k] for k in ks]
    nf = sum(1 for f in sel if f.is_fermion)
    g.assume(n == 2 or nf in (0, 2) and sum(f.derivs for f in sel) == 0)
    colour_ops = g.fn("tensormethod.contract.colour_singlets")([op], overcomplete=True)
    o = colour_ops[g.int("colour", 0, 10**6) % len(colour_ops)]
    symbols = {k: list(v) for k, v in SYMBOLS.items()}
    got = g.fn(K + "contract")(sel, symbols, o.epsilons, {})
    if isinstance(got, str):
        u = sum(len(f.indices_by_type["Undotted"]) for f in sel)
        d = sum(len(f.indices_by_type["Dotted"]) for f in sel)
        g.ensure("a reason", "anishing" in got or "ontraction" in got and (u % 2 and d % 2 or any(f.derivs for f in sel)))
        return
    x, term, spect, lorentz = got
    free = [i for i in term.free_indices if i.index_type != "Generation"]
    g.ensure("no free index", not free)
    g.ensure("neutral", sum(f.y for f in term.fields) == 0)
    g.ensure("no derivatives", all(f.derivs == 0 for f in term.fields))
    g.ensure("exotic charge", x.y == sum(f.y for f in sel))
    g.ensure("spin", x.dynkin[:2] in ("00", "10", "01"))
    want = sorted(str((f.strip_derivs() if f.derivs else f.field).label_with_dagger) for f in sel)
    have = sorted(str(f.label_with_dagger) for f in term.fields)
    g.ensure("fields", len(have) == len(sel) + 1 and all(have.count(w) >= want.count(w) for w in want))
    g.ensure("spectators and contracted", len(spect) + len([e for e in o.epsilons if all(e is not s for s in spect)]) == len(o.epsilons))
    try:
        bad = numeric.well_formed(term)
    except Exception:
        bad = None
    g.ensure("well formed", not bad)
    g.ensure("invariant", numeric.is_invariant(term, random.Random(3), 1))
    g.ensure("does not vanish", not numeric.vanishes(term.tensors, random.Random(6)))


@contract(P, covers=[K + "contract", K + "exotic_field_and_term"], mode="conc", runs=700, gsecs=30)
def vanishing(g):
    """A vertex of copies of fields without generations is refused only when the product
    of the fields, as the epsilons join them, is zero, and always then unless the copies
    have indices of colour and others (sympy's canonical form misses some of those)."""
    n = g.pick("n", [2, 2, 3])
    shape = g.pick("A", ["", "i", "i", "ii", "c", "ci", "u", "ui", "uc"] if n == 2 else ["", "i", "i", "ii", "c", "ci"])
    kinds = ["A"] * n
    if g.bool("other"):
        kinds[g.int("where", 0, n - 1)] = "B"
    num = {"u": 0, "c": 0, "i": 0}
    fs = []
    other = g.pick("B", ["", "i", "c"])
    for k in kinds:
        ix = []
        for t in sorted(shape if k == "A" else other, key="uci".index):
            ix.append(f"{t}{num[t]}")
            num[t] += 1
        sp = shape if k == "A" else other
        dk = f"{sp.count('u')}0{sp.count('c')}0{sp.count('i')}"
        f = g.fn(M + "Field")(k, dk, charges={"y": 1, "3b": 0}, nf=1, latex="x", comm=stat(g, [sp.count("u"), 0]))
        fs.append(f(" ".join(ix)))
    eps = g.fn(M + "eps")
    gauge = []
    iso = [i for f in fs for i in f.indices if i.index_type == "Isospin"]
    col = [i for f in fs for i in f.indices if i.index_type == "Colour"]
    for j in range(len(iso) // 2):
        if g.bool(f"iso{j}"):
            a = iso.pop(g.int(f"a{j}", 0, len(iso) - 1))
            b = iso.pop(g.int(f"b{j}", 0, len(iso) - 1))
            if not any(a in f.indices and b in f.indices for f in fs):
                gauge.append(eps(f"-{a} -{b}"))
    if len(col) > 1 and g.bool("colour"):
        gauge.append(eps(f"-{col[0]} -{col[1]} -" + (str(col[2]) if len(col) > 2 else "c99")))
    symbols = {k: list(v) for k, v in SYMBOLS.items()}
    got = g.fn(K + "contract")(fs, symbols, list(gauge), {})
    us = [i for f in fs for i in f.indices if i.index_type == "Undotted"]
    lor = [eps(f"-{us[0]} -{us[1]}")] if len(us) == 2 else []
    g.assume(len(us) in (0, 2))
    whole = fs[0]
    for t in [*fs[1:], *gauge, *lor]:
        whole = whole * t
    zero = numeric.vanishes(whole.tensors, random.Random(5), [i for i in whole.get_free_indices() if i.index_type != "Generation"])
    if zero and not numeric.told(whole.tensors):
        return
    g.ensure("refused when zero", isinstance(got, str) == zero)
    if zero:
        g.ensure("reason", "anishing" in got)
    else:
        g.ensure("the term is not zero", not numeric.vanishes(got[1].tensors, random.Random(6)))


@contract(P, covers=[K + "contract", K + "process_derivative_term", K + "get_lorentz_epsilons"], mode="conc", exhaustive=True, gsecs=30)
def vanishing_derivatives(g):
    """Two scalars with derivatives, with or without a third scalar: the coupling is that
    of the scalars alone, refused exactly when it is zero."""
    H, X = (g.fn(M + "Field")(l, "00001", charges={"y": y, "3b": 0}, nf=1, latex="x", comm=g.fn(M + "BOSE")) for l, y in (("H", 1), ("X", 3)))
    D = g.fn(M + "D")
    eps = g.fn(M + "eps")
    third = g.pick("third", ["", "H", "X", "Y"])
    two = [H, X if g.bool("other") else H]
    fs = [D(f, "11")(f"u{k} d{k} i{k}") for k, f in enumerate(two)]
    if third == "Y":
        fs.append(g.fn(M + "Field")("Y", "00000", charges={"y": 5, "3b": 0}, nf=1, latex="x", comm=g.fn(M + "BOSE"))(""))
    elif third:
        fs.append((H if third == "H" else X)("i2"))
    order = g.pick("order", [0, 1, 2])
    fs = fs[order:] + fs[:order]
    iso = [i for f in fs for i in f.indices if i.index_type == "Isospin"]
    pair = g.pick("joined", [None, (0, 1), (0, 2), (1, 2)])
    g.assume(pair is None or pair[1] < len(iso))
    gauge = [eps(f"-{iso[pair[0]]} -{iso[pair[1]]}")] if pair else []
    symbols = {k: list(v) for k, v in SYMBOLS.items()}
    got = g.fn(K + "contract")(fs, symbols, list(gauge), {})
    plain = [f.strip_derivs_with_indices() if f.derivs else f for f in fs]
    whole = plain[0]
    for t in [*plain[1:], *gauge]:
        whole = whole * t
    zero = numeric.vanishes(whole.tensors, random.Random(5), [i for i in whole.get_free_indices() if i.index_type != "Generation"])
    g.ensure("refused when zero", isinstance(got, str) == zero)
    if not zero:
        x, term, spect, lorentz = got
        g.ensure("fields", sorted(f.label for f in term.fields if f.label[0] in "HXY") == sorted(f.label for f in plain))
        g.ensure("a scalar", x.is_scalar and x.y == sum(f.y for f in fs))
        g.ensure("not zero", not numeric.vanishes(term.tensors, random.Random(6)))
        g.ensure("derivatives joined", len(lorentz) == 2 and not spect)
