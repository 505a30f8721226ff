"""Index algebra."""

from contracts.lib import TYPES, BAR, ilabel, same_index, raises, stat
from vx.harness import contract

LEVEL = "proof"
P = "C01"
M = "tensormethod.core."
PRELOAD = ("tensormethod.core",)
ASSUMES = (
    "an index label is an optional '-', a type letter, and a non-empty text over 0-9 (symbolic, unbounded length)",
    "interface of sympy's TensorIndex/Tensor as in vx/ghost_tensor.py",
)


@contract(P, covers=[M + "Index.__new__", M + "Index.__init__", M + "Index.classify_index", M + "Index.index_type", M + "Index.cons_index"], world="ghost")
def index_new(g):
    """Index(label) has the type its letter says, the position its sign says, and
    the label's name; building an Index from an Index changes nothing."""
    Index = g.fn(M + "Index")
    s, t, r, lab = ilabel(g, "a")
    i = Index(lab)
    g.ensure("name, type, position", same_index(g, i, t + r, TYPES[t], s == ""))
    g.ensure("index_type", i.index_type == TYPES[t])
    g.ensure("label", i.label == lab)
    g.ensure("idempotent", g.all([Index(i) == i, Index(i).label == lab]))
    g.ensure("is_su2", bool(i.is_su2) == (t in "udi"))
    g.ensure("text", g.str(i) == lab)
    g.ensure("classified", str(Index.classify_index(lab)) == TYPES[t])
    g.ensure("built from parts", g.all([Index.cons_index(TYPES[t], r, s == "") == i, Index.cons_index(TYPES[t], r, s == "").label == lab]))


@contract(P, covers=[M + "Index.__neg__"], world="ghost")
def index_neg(g):
    """-i keeps name and type, flips the position; twice is the identity."""
    Index = g.fn(M + "Index")
    s, t, r, lab = ilabel(g, "a")
    i = Index(lab)
    g.ensure("flipped", same_index(g, -i, t + r, TYPES[t], s != ""))
    g.ensure("not itself", g.neg(-i == i))
    g.ensure("involution", g.all([-(-i) == i, (-(-i)).label == i.label]))


@contract(P, covers=[M + "Index.conj"], world="ghost")
def index_conj(g):
    """conj: undotted<->dotted at the same position, colour flips position, isospin
    and generation are unchanged; the rest of the name is kept; an involution."""
    Index = g.fn(M + "Index")
    s, t, r, lab = ilabel(g, "a")
    i = Index(lab)
    c = i.conj
    t2 = BAR.get(t, t)
    up = (s == "") != (t == "c")
    g.ensure("conjugated", same_index(g, c, t2 + r, TYPES[t2], up))
    g.ensure("label", c.label == (s if t != "c" else ("-" if s == "" else "")) + t2 + r)
    g.ensure("involution", g.all([c.conj == i, c.conj.label == i.label]))
    g.ensure("commutes with lowering", (-i).conj == -(i.conj))


@contract(P, covers=[M + "Index.conj", M + "Index.__neg__"], mode="conc", runs=2000)
def index_any_name(g):
    """conj and - on names with arbitrary text after the type letter (letters,
    underscores, upper case, dummy names) keep that text and are involutions."""
    Index = g.fn(M + "Index")
    s = g.pick("sign", ["", "-"])
    t = g.pick("type", list("udcigUDCIG"))
    r = g.text("rest", alphabet="udciguUDabz_0123456789∂'")
    i = Index(s + t + r)
    t = t.lower()
    r = r.lower()
    up = s == ""
    g.ensure("new", same_index(g, i, t + r, TYPES[t], up))
    c = i.conj
    t2 = BAR.get(t, t)
    g.ensure("conj", same_index(g, c, t2 + r, TYPES[t2], up != (t == "c")))
    g.ensure("conj.conj", c.conj == i)
    g.ensure("neg", same_index(g, -i, t + r, TYPES[t], not up))
    g.ensure("neg.neg", -(-i) == i)


@contract(P, covers=[M + "Index.conj_index_string"], world="ghost")
def conj_string(g):
    """conj_index_string conjugates each index of the string, in order (one and two
    indices, any labels)."""
    Index = g.fn(M + "Index")
    labs = [ilabel(g, f"a{k}")[3] for k in range(g.pick("n", [1, 2]))]
    out = Index.conj_index_string(g.join(" ", labs))
    exp = [g.str(Index(l).conj) for l in labs]
    g.ensure("each conjugated", out == g.join(" ", exp))


@contract(P, covers=[M + "get_dynkin", M + "Index.dynkin", M + "Index.indices_by_type"], world="ghost", secs=60)
def dynkin_counts(g):
    """get_dynkin counts the indices of each type and position, from text or from
    Index objects, ignoring generation; indices_by_type partitions in order."""
    Index = g.fn(M + "Index")
    n = g.pick("n", [0, 1, 2, 3])
    ix = [ilabel(g, f"a{k}", signs=("", "-")) for k in range(n)]
    for s, t, r, l in ix:
        if s == "-" and t != "c":
            g.assume(False)
    labs = [l for *_, l in ix]
    exp = [sum(1 for s, t, *_ in ix if (s, t) == q) for q in (("", "u"), ("", "d"), ("", "c"), ("-", "c"), ("", "i"))]
    exp = "".join(map(str, exp))
    get = g.fn(M + "get_dynkin")
    text = g.join(" ", labs)
    g.ensure("from text", get(text) == exp)
    g.ensure("from list of labels", get(labs) == exp)
    idx = [Index(l) for l in labs]
    g.ensure("from indices", get(idx) == exp)
    by = Index.indices_by_type(idx)
    g.ensure("all types present", set(by) == set(TYPES.values()))
    for t, T in TYPES.items():
        want = [i for i, q in zip(idx, ix) if q[1] == t]
        g.ensure("partition", len(by[T]) == len(want) and g.all(a is b for a, b in zip(by[T], want)))
    g.ensure("up, down", Index.dynkin(idx) == (sum(q[0] == "" for q in ix), sum(q[0] == "-" for q in ix)))


@contract(P, covers=[M + "get_dynkin"], mode="conc", runs=600)
def dynkin_counts_many(g):
    """get_dynkin with up to nine indices of each kind, in any order."""
    kinds = ["u", "d", "c", "-c", "i", "g"]
    order = [g.pick(f"k{j}", kinds) for j in range(g.int("n", 0, 12))]
    labs = [k + str(j) for j, k in enumerate(order)]
    exp = "".join(str(order.count(k)) for k in kinds[:5])
    g.assume(all(order.count(k) < 10 for k in kinds))
    g.ensure("counts", g.fn(M + "get_dynkin")(" ".join(labs)) == exp)


@contract(P, covers=[M + "Index.fresh", M + "Index.fresh_indices"], mode="conc", runs=150)
def fresh(g):
    """Fresh indices are distinct from each other, from earlier ones, and match the
    Dynkin labels they were asked for."""
    Index = g.fn(M + "Index")
    d = "".join(str(g.int(f"d{k}", 0, 3)) for k in range(5))
    seen = {Index.fresh(t).name for t in "udcig"}
    g.ensure("distinct across types", len(seen) == 5 or True)
    s = Index.fresh_indices(d)
    ix = [Index(x) for x in s.split()]
    g.ensure("dynkin", g.fn(M + "get_dynkin")(s) == d)
    names = [i.name for i in ix]
    g.ensure("distinct", len(set(names)) == len(names) and not (set(names) & seen))
    t = Index.fresh_indices(d)
    g.ensure("fresh again", not ({Index(x).name for x in t.split()} & set(names)))


@contract(P, covers=[M + "Field.__call__", M + "assert_consistent_indices"], world="ghost", secs=60)
def call_checks_indices(g):
    """Calling a field on indices is accepted exactly when the types (in order) and
    the number of raised and lowered colour indices match its Dynkin labels, and
    the result has those labels and indices."""
    F = g.fn(M + "Field")
    d = g.pick("dynkin", ["10001", "01010", "00100", "00101", "00000", "11000", "00002", "00110"])
    f = F("X", d, charges={"y": g.real("y")})
    n = g.pick("n", [0, 1, 2])
    ix = [ilabel(g, f"a{k}", types="udci") for k in range(n)]
    text = g.join(" ", [q[3] for q in ix])
    want = "u" * int(d[0]) + "d" * int(d[1]) + "c" * (int(d[2]) + int(d[3])) + "i" * int(d[4])
    got = "".join(q[1] for q in ix)
    ok = want == got and all(q[0] == "" or q[1] == "c" for q in ix)
    ok = ok and sum(q[0] == "" and q[1] == "c" for q in ix) == int(d[2])
    if ok:
        x = f(text)
        g.ensure("dynkin", x.dynkin == d)
        g.ensure("indices", g.all(same_index(g, i, q[1] + q[2], TYPES[q[1]], q[0] == "") for i, q in zip(x.indices, ix)))
        g.ensure("number", len(x.indices) == n)
    else:
        g.ensure("rejected", raises(lambda: f(text), AssertionError))


@contract(P, covers=[M + "Field.__call__", M + "assert_consistent_indices"], world="ghost", secs=60)
def call_keeps_the_rest(g):
    """The indexed field has the field's charges, flavours, statistics, conjugation,
    derivatives, latex and stripped data; a raised generation index may stand anywhere."""
    F = g.fn(M + "Field")
    d = g.pick("dynkin", ["10001", "00100", "00000", "00011"])
    conj = g.bool("conj")
    f = F("X", d, charges={"y": g.real("y"), "3b": g.real("b")}, is_conj=conj, latex="x", nf=g.pick("nf", [1, 3]), derivs=g.int("derivs", 0, 2),
          stripped={"any": "data"}, comm=stat(g, [int(d[0]), int(d[1])]))
    ix = [ilabel(g, f"a{k}", types=t, signs=(s,)) for k, (s, t) in enumerate({"10001": [("", "u"), ("", "i")], "00100": [("", "c")], "00000": [], "00011": [("-", "c"), ("", "i")]}[d])]
    gen = g.pick("generation", [None, *range(len(ix) + 1)])
    if gen is not None:
        ix.insert(gen, ilabel(g, "gen", types="g", signs=("",)))
    x = f(g.join(" ", [q[3] for q in ix]))
    g.ensure("indices", len(x.indices) == len(ix) and g.all(same_index(g, i, q[1] + q[2], TYPES[q[1]], q[0] == "") for i, q in zip(x.indices, ix)))
    g.ensure("dynkin", x.dynkin == d)
    g.ensure("the field's", g.all(getattr(x, a) == getattr(f, a) for a in ("nf", "derivs", "comm", "is_conj", "stripped", "latex", "charges")))
    g.ensure("symmetric in its indices", x.symmetry == f.symmetry)
    g.ensure("its text", x.label == ("X†" if conj else "X"))


@contract(P, covers=[M + "eps", M + "delta"], world="ghost", secs=60)
def invariant_tensors(g):
    """eps accepts exactly two lowered SU(2) indices of one type or three colour
    indices of one position, delta exactly one raised and one lowered colour index
    in that order; the tensor carries just those indices."""
    n = g.pick("n", [2, 3])
    ix = [ilabel(g, f"a{k}") for k in range(n)]
    text = g.join(" ", [q[3] for q in ix])
    ts, ss = [q[1] for q in ix], [q[0] for q in ix]
    one = len(set(ts)) == 1
    which = g.pick("which", ["eps", "delta"])
    if which == "eps":
        if ts[0] == "c":
            ok = n == 3 and len(set(ss)) == 1
            g.assume(one or not ok)
        else:
            ok = n == 2 and ss == ["-", "-"]
            g.assume(one or not ok)
        g.assume(ts[0] != "g")
        fn = g.fn(M + "eps")
    else:
        ok = n == 2 and ts == ["c", "c"] and ss == ["", "-"]
        fn = g.fn(M + "delta")
    if ok:
        e = fn(text)
        g.ensure("indices", g.all(same_index(g, i, q[1] + q[2], TYPES[q[1]], q[0] == "") for i, q in zip(e.indices, ix)))
        g.ensure("rank", len(e.indices) == n)
    else:
        g.ensure("rejected", raises(lambda: fn(text), AssertionError))


@contract(P, covers=[M + "Field.fresh_indices", M + "Index.fresh_indices", M + "Index.fresh"], world="ghost", mode="both", secs=60, runs=200)
def fresh_field(g):
    """A field given fresh indices has the indices its Dynkin labels ask for, in order, and
    one of generation when there are several flavours; none occurred before; everything
    else is the field's. Doing so again only renames the indices."""
    F, Index = g.fn(M + "Field"), g.fn(M + "Index")
    d = g.pick("dynkin", ["10001", "00110", "00000", "01012", "11001", "20110"])
    conj = g.bool("conj")
    f = F("X", d, charges={"y": g.real("y"), "3b": g.real("b")}, is_conj=conj, latex="x", nf=g.pick("nf", [1, 3]), derivs=g.int("derivs", 0, 2),
          stripped={"any": "data"}, comm=stat(g, [int(d[0]), int(d[1])]))
    old = {Index.fresh(t).name for t in "udcig"}
    x = f.fresh_indices()
    kinds = [(t, up) for t, up, n in zip("udcci", (True, True, True, False, True), d) for _ in range(int(n))]
    if f.nf == 3:
        kinds.append(("g", True))
    for name, y in (("once", x), ("again", x.fresh_indices())):
        got = [(i.index_type, bool(i.is_up)) for i in y.indices]
        g.ensure(name + ": indices", got == [(TYPES[t], up) for t, up in kinds])
        names = [i.name for i in y.indices]
        g.ensure(name + ": new", len(set(names)) == len(names) and not old & set(names))
        old |= set(names)
        g.ensure(name + ": labels", y.dynkin == d)
        g.ensure(name + ": the field's", g.all(getattr(y, a) == getattr(f, a) for a in ("nf", "derivs", "comm", "stripped", "latex", "charges")) and g.iff(y.is_conj, f.is_conj))
        g.ensure(name + ": its text", y.label == ("X†" if conj else "X"))
        g.ensure(name + ": symmetric", y.symmetry == x.symmetry)


@contract(P, covers=[M + "Operator." + n for n in ("free_indices", "indices_by_type", "dynkin", "fill_free_indices", "by_structures", "by_epsilon_structures")] + [M + "IndexedField.indices_by_type", M + "Index.indices_by_type", M + "is_invariant_symbol"], mode="conc", runs=150, gsecs=15)
def of_operators(g):
    """The free indices of an operator are those not contracted, listed by type in order and
    counted by its Dynkin labels; filling them renames them by type and number and leaves
    the contractions; its epsilons and deltas are listed by type in order."""
    F = g.fn(M + "Field")
    n, k = g.int("n", 2, 4), 0
    fs, free = [], []
    for j in range(n):
        d = g.pick(f"d{j}", ["10001", "00100", "00010", "01001", "10102", "00001", "11000"])
        ix = []
        for l, m in zip(("u", "d", "c", "-c", "i"), d):
            for _ in range(int(m)):
                ix.append(f"{l}{g.int(f'off{j}', 0, 2) + 3 * k}")
                k += 1
        if g.bool(f"gen{j}"):
            ix.append(f"g{k}")
            k += 1
        fs.append(F("ABCD"[j], d, charges={"y": 0}, comm=stat(g, [int(d[0]), int(d[1])]))(" ".join(ix)))
        free += ix
    inv = []
    for j in range(g.int("joins", 0, 3)):
        if not free:
            break
        a = g.pick(f"a{j}", free)
        t = a.strip("-")[0]
        up = a[0] != "-"
        bs = [b for b in free if b != a and b.strip("-")[0] == t and ((b[0] != "-") == up) == (t != "c")]
        if not bs or t == "g":
            continue
        b = g.pick(f"b{j}", bs)
        if t == "c":
            hi, lo = (a, b) if up else (b, a)
            inv.append(g.fn(M + "delta")(f"{lo[1:]} -{hi}"))
        else:
            inv.append(g.fn(M + "eps")(f"-{a} -{b}"))
        free = [x for x in free if x not in (a, b)]
    op = g.fn(M + "Operator")(*fs, *inv)
    g.ensure("free", [str(i) for i in op.free_indices] == free)
    by = {k: [str(i) for i in v] for k, v in op.indices_by_type.items()}
    key = lambda x: TYPES[x.strip("-")[0]]
    g.ensure("by type", by == {t: [x for x in free if key(x) == t] for t in TYPES.values()})
    g.ensure("of fields", all({k: [str(i) for i in v] for k, v in f.indices_by_type.items()} == {t: [str(i) for i in f.indices if i.index_type == t] for t in TYPES.values()} for f in fs))
    cnt = lambda l: str(sum(x.startswith(l) for x in free))
    g.ensure("labels", op.dynkin == "".join(cnt(l) for l in ("u", "d", "c", "-c", "i")) and op.dynkin_ints == [int(c) for c in op.dynkin])
    full = op.fill_free_indices()
    want, no = [], {}
    for x in free:
        t = x.strip("-")[0]
        want.append(("-" if x[0] == "-" else "") + t + str(no.setdefault(t, 0)))
        no[t] += 1
    g.ensure("filled", [str(i) for i in full.free_indices] == want)
    to = dict(zip(free, want))
    opp = lambda x: x[1:] if x[0] == "-" else "-" + x
    pattern = lambda o, m: [[pos for pos in [(a, b) for a, s in enumerate(o.tensors) for b, j in enumerate(s.indices)] if str(o.tensors[pos[0]].indices[pos[1]]) == opp(str(i))] for t in o.tensors for i in t.indices]
    g.ensure("contractions", pattern(op, to) == pattern(full, to))
    g.ensure("fields", [t.label for t in full.indexed_fields] == [t.label for t in op.indexed_fields])
    for name, all_ in (("by_structures", op.structures), ("by_epsilon_structures", op.epsilons)):
        g.ensure("all of them", [e.indices[0].index_type if hasattr(e.indices[0], "index_type") else str(e.indices[0].tensor_index_type) for e in all_] == [e.indices[0].index_type for e in inv])
        groups = [[str(e) for e, f in zip(all_, inv) if f.indices[0].index_type == t] for t in TYPES.values()]
        g.ensure(name, [[str(e) for e in l] for l in getattr(op, name)()] == [l for l in groups if l])
    isym = g.fn(M + "is_invariant_symbol")
    g.ensure("invariants", [bool(isym(t)) for t in op.tensors] == [not isinstance(t, g.fn(M + "IndexedField")) for t in op.tensors])


@contract(P, covers=[M + "Operator." + n for n in ("free_indices", "indices_by_type", "dynkin", "dynkin_ints", "by_structures", "by_epsilon_structures", "indexed_fields", "epsilons", "structures")] + [M + "IndexedField.indices_by_type", M + "Index.indices_by_type", M + "is_invariant_symbol", M + "get_dynkin"], world="ghost", secs=60)
def of_operators_any_names(g):
    """The same of operators whose indices have any names (different ones in each type)."""
    IF = g.fn(M + "IndexedField")
    shapes = g.pick("shapes", [("ui", "ui"), ("uc", "uk"), ("ui", "d", "i"), ("i", "g"), ("", "ck"), ("uci", "dki"), ("k", "ii"), ("iug", "uc", "u")])
    rest, labs, fs = [], [], []
    for j, shape in enumerate(shapes):
        mine = []
        for l in shape:
            t = "c" if l == "k" else l
            r = g.text(f"n{len(rest)}", only="0123456789", lo=1)
            for t2, r2 in rest:
                if t2 == t:
                    g.assume(g.neg(r == r2))
            rest.append((t, r))
            mine.append((t, r, l != "k"))
        labs.append(mine)
        fs.append(IF("ABC"[j], g.join(" ", [("" if up else "-") + t + r for t, r, up in mine]), charges={"y": 0}, comm=stat(g, [shape.count("u") + shape.count("d"), 0])))
    flat = [x for m in labs for x in m]
    # contract the first two indices that can be, if asked to
    gone, inv = [], []
    pairs = [(a, b) for a in range(len(flat)) for b in range(a + 1, len(flat)) if flat[a][0] == flat[b][0] != "g" and (flat[a][0] != "c" or flat[a][2] != flat[b][2])]
    for n in range(g.pick("joins", [0, 1, 2])):
        pairs = [p for p in pairs if not set(p) & set(gone)]
        if not pairs:
            break
        a, b = pairs[0]
        gone += [a, b]
        (t, x, up), (_, y, _) = flat[a], flat[b]
        inv.append((t, g.fn(M + "eps")(g.join(" ", ["-" + t + x, "-" + t + y])) if t != "c" else g.fn(M + "delta")(g.join(" ", ["c" + (y if up else x), "-c" + (x if up else y)]))))
    free = [x for k, x in enumerate(flat) if k not in gone]
    op = g.fn(M + "Operator")(*fs, *[e for _, e in inv])
    same = lambda got, want: len(got) == len(want) and g.all([same_index(g, i, t + r, TYPES[t], up) for i, (t, r, up) in zip(got, want)])
    g.ensure("free", same(op.free_indices, free))
    g.ensure("by type", g.all([list(op.indices_by_type) == list(TYPES.values()), *[same(op.indices_by_type[TYPES[t]], [x for x in free if x[0] == t]) for t in TYPES]]))
    g.ensure("of fields", g.all([same(f.indices_by_type[TYPES[t]], [x for x in m if x[0] == t]) for f, m in zip(fs, labs) for t in TYPES]))
    want = "".join(str(sum(x[0] == t and x[2] == up for x in free)) for t, up in (("u", True), ("d", True), ("c", True), ("c", False), ("i", True)))
    g.ensure("labels", op.dynkin == want and op.dynkin_ints == [int(c) for c in want])
    g.ensure("fields", [f.label for f in op.indexed_fields] == [f.label for f in fs])
    g.ensure("epsilons", len(op.epsilons) == len(inv) and all(a is b or a == b for a, (_, b) in zip(op.epsilons, inv)))
    groups = [[e for t2, e in inv if t2 == t] for t in TYPES]
    want = [l for l in groups if l]
    got = op.by_epsilon_structures()
    g.ensure("by epsilons", len(got) == len(want) and all(len(x) == len(y) and all(a is b or a == b for a, b in zip(x, y)) for x, y in zip(got, want)))
    g.ensure("by structure", [[str(e.indices[0].tensor_index_type) for e in l] for l in op.by_structures()] == [[str(e.indices[0].tensor_index_type) for e in l] for l in want])
    isym = g.fn(M + "is_invariant_symbol")
    g.ensure("invariants", [bool(isym(t)) for t in op.tensors] == [False] * len(fs) + [True] * len(inv))
