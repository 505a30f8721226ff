"""How fields and operators are written in LaTeX."""

import itertools
import re
import unicodedata
from collections import Counter

from contracts.C02_conj import shape, dyn
from contracts.lib import TYPES
from vx.harness import contract

LEVEL = "proof"
P = "C32"
M = "tensormethod.core."
U = "tensormethod.utils."
K = "completions.completions."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.lnv", "completions.core", "completions.topologies", "completions.completions", "completions.operators")
ASSUMES = (
    "operators of at most four fields and index shapes as listed, any index names",
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (bounded part: sympy itself)",
)
GREEK = ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "nu", "xi",
         "pi", "rho", "sigma", "tau", "upsilon", "phi", "chi", "psi", "omega"]


@contract(P, covers=[M + "Field.get_latex", M + "Field.conj"], world="ghost", secs=40)
def written_field(g):
    """The conjugate of a field with isospin is written with a tilde, of another with a
    dagger, a field itself as it is."""
    d = [g.digit(f"d{k}", 2) for k in range(5)]
    tex = g.text("latex", lo=1, no="()")
    f = g.fn(M + "Field")(g.text("label", lo=1, no="†"), d[0] + d[1] + d[2] + d[3] + d[4], charges={"y": g.real("y")}, latex=tex)
    g.ensure("as it is", f.get_latex() == tex)
    c = f.conj
    doublet = g.neg(d[4] == "0")
    tilde, dagger = g.join("", ["\\tilde{", tex, "}"]), g.join("", ["{", tex, "^{\\dagger}}"])
    g.ensure("conjugate", c.get_latex() == (tilde if doublet else dagger))
    g.ensure("twice", c.conj.get_latex() == tex)


@contract(P, covers=[U + "to_tex", U + "TEX_GREEK_LOWERCASE", U + "DOTTED_TEX_GREEK_LOWERCASE"], mode="conc", exhaustive=True)
def letters(g):
    """Greek labels are written with their own command; the letters for indices differ."""
    U_ = g.mod(U[:-1])
    for ch in "αβγδεζηθικλμνξπρστυφχψω":
        name = unicodedata.name(ch).split()[-1].lower().replace("lamda", "lambda")
        g.ensure(ch, g.fn(U + "to_tex")(ch) == "\\" + name)
    for s in ("A", "S1", "x", "Delta"):
        g.ensure(s, g.fn(U + "to_tex")(s) == s)
    g.ensure("letters", U_.TEX_GREEK_LOWERCASE == ["\\" + x for x in GREEK])
    g.ensure("dotted letters", U_.DOTTED_TEX_GREEK_LOWERCASE == ["\\dot{\\" + x + "}" for x in GREEK])


ALPHABET = {"u": {"\\" + x for x in GREEK}, "d": {"\\dot{\\" + x + "}" for x in GREEK}, "c": set("abcdefgh"), "i": set("ijklmnpqrstuvwxyz")}
IN_BRACES = r"\{((?:[^{}]|\{[^{}]*\})*)\}"


def read(text, n):
    """Letters of the fields X0, X1, ... and of the epsilons and deltas."""
    fields, _, rest = text.partition(" \\cdot ")
    got = {}
    for k in range(n):
        m = re.findall(rf"(?:\\tilde\{{X{k}\}}|\{{X{k}\^\{{\\dagger\}}\}}|\(D+(?:\\tilde\{{X{k}\}}|\{{X{k}\^\{{\\dagger\}}\}}|X{k})\)|X{k})(?!\d)(?:\^{IN_BRACES})?", fields)
        got[k] = None if len(m) != 1 else m[0].split()
    eps = [(s, tuple(ls.split())) for s, ls in re.findall(rf"\\(epsilon|delta)_{IN_BRACES}", rest)]
    return got, eps


def judge(g, op, fields, shown):
    """The letters of a text show exactly the contractions of the operator."""
    text = op.latex() if shown == "udci" else op.latex(ignore=[t for t in "udci" if t not in shown])
    got, eps = read(text, len(fields))
    rank = lambda f: ("LeQudH" + "BWG").find(f.label.split("D")[-1][0]) % 10
    at = [re.search(rf"X{k}(?!\d)", text).start() for k in range(len(fields))]
    g.ensure("fields of the Standard Model first, in the usual order", all(at[a] < at[b] for a, b in itertools.permutations(range(len(fields)), 2) if rank(fields[a]) < rank(fields[b])))
    g.ensure("every field once", all(v is not None for v in got.values()))
    kinds = {v: k for k, v in TYPES.items()}
    placed = []
    for k, f in enumerate(fields):
        ix = [i for i in f.indices if kinds[str(i.index_type)] in shown]
        g.ensure("a letter for each index", len(got[k]) == len(ix))
        for i, l in zip(ix, got[k]):
            g.ensure("of its alphabet", l in ALPHABET[kinds[str(i.index_type)]])
            placed.append((i, l))
    for (i, l), (j, m) in itertools.combinations(placed, 2):
        g.ensure("one letter exactly if contracted", g.iff(l == m, i == -j) if i.index_type == j.index_type else l != m)
    want = []
    free = {}
    for e in op.epsilons:
        if kinds[str(e.indices[0].index_type)] not in shown:
            continue
        s = "delta" if is_delta(e) else "epsilon"
        want.append((s, [letter_of(g, placed, i) for i in e.indices], e))
    g.ensure("as many epsilons and deltas", sorted(s for s, _, _ in want) == sorted(s for s, _ in eps))
    # letters of indices on no field: the same on both epsilons, and new
    for p in itertools.permutations(range(len(eps))) if any(None in ls for _, ls, _ in want) else [None]:
        order = p or None
        if order is None:
            g.ensure("epsilons", Counter((s, tuple(sorted(ls))) for s, ls, _ in want) == Counter((s, tuple(sorted(ls))) for s, ls in eps))
            return
        if any(want[k][0] != eps[q][0] or not fits(want[k][1], eps[q][1]) for k, q in enumerate(order)):
            continue
        names = {}
        ok = True
        for k, q in enumerate(order):
            rest = list((Counter(eps[q][1]) - Counter(x for x in want[k][1] if x)).elements())
            hidden = [i for i, x in zip(want[k][2].indices, want[k][1]) if x is None]
            if len(hidden) != 1 or len(rest) != 1:
                ok = False
                break
            names.setdefault(hidden[0].name, set()).add(rest[0])
        taken = {l for _, l in placed}
        if ok and all(len(v) == 1 and not v & taken for v in names.values()) and len(set(map(tuple, names.values()))) == len(names):
            return
    g.ensure("epsilons contracted with one another", False)


def fits(ls, got):
    known = Counter(x for x in ls if x)
    return len(ls) == len(got) and not known - Counter(got)


def letter_of(g, placed, i):
    for j, l in placed:
        if j.index_type == i.index_type and bool(j == -i):
            return l
    return None


def is_delta(e):
    from vx.core import to_str

    return to_str(e)[:2] == "KD"


LABELS = ["L", "S1", "φ", "Q"]
PAIRS = [("ui", "ui"), ("ui", "uci"), ("uc", "u-c"), ("-c", "uc"), ("d-c", "dc"), ("c-c", "c-c"), ("", "ii"), ("cii", "-c"), ("i", "")]


@contract(P, covers=[M + "Operator.latex", M + "IndexedField.latex_and_pop"], world="ghost", secs=120, gsecs=10)
def written_operator(g):
    """In the text of an operator every field stands once with a letter for each index that
    is shown, of the index type's alphabet; two indices have the same letter exactly if they
    are contracted directly; every epsilon and delta has the letters of the indices it
    contracts; types ignored are not shown anywhere."""
    F = g.fn(M + "Field")
    shapes = g.pick("shapes", PAIRS if g.thorough or not g.symbolic else [PAIRS[k] for k in (0, 2, 4, 7)])
    used, fields = [], []
    ixs = []
    for k, s in enumerate(shapes):
        ix = shape(g, f"f{k}", shapes=[s])
        for q in ix:
            for a in used:
                if a[1] == q[1]:
                    g.assume(g.neg(a[2] == q[2]))
            used.append(q)
        ixs.append(ix)
    # joined directly, by names
    ups = [q for q in ixs[0] if q[1] == "c"]
    direct = None
    for a in ups:
        for b in ixs[1]:
            if direct is None and b[1] == "c" and b[0] != a[0] and g.bool("directly"):
                direct = (a, b)
                ixs[1] = [(q[0], q[1], a[2], q[0] + q[1] + a[2]) if q is b else q for q in ixs[1]]
    labels = g.pick("labels", [(0, 1), (1, 1), (2, 0), (1, 2)], quick=2)
    ts = []
    for k, ix in enumerate(ixs):
        conj = g.bool(f"conj{k}") if k == 0 or g.thorough or not g.symbolic else False
        f = F(LABELS[labels[k]], dyn(ix), charges={"y": 0, "3b": 0}, is_conj=conj, latex=f"X{k}", nf=g.pick(f"nf{k}", [1, 3]) if k == 0 else 1)
        ts.append(f(g.join(" ", [q[3] for q in ix] + (["g0"] if f.nf == 3 else []))))
    fields = list(ts)
    for t in "udi":
        a = [q for ix in ixs for q in ix if q[1] == t]
        if len(a) > 1 and g.bool("join" + t):
            ts.append(g.fn(M + "eps")(g.join(" ", ["-" + t + a[0][2], "-" + t + a[1][2]])))
    if direct is None:
        cu, cd = ([q for ix in ixs for q in ix if q[1] == "c" and q[0] == s] for s in ("", "-"))
        if cu and cd and g.bool("joinc"):
            ts.append(g.fn(M + "delta")(g.join(" ", ["c" + cd[-1][2], "-c" + cu[0][2]])))
    op = g.fn(M + "Operator")(*ts)
    judge(g, op, fields, g.pick("shown", ["udci", "ci", "i"]))


@contract(P, covers=[M + "Operator.latex", M + "IndexedField.latex_and_pop", M + "Operator._repr_html_"], mode="conc", exhaustive=True, gsecs=60)
def catalogue_written(g):
    """The same for the operators of the catalogue and the terms of their completions."""
    O = g.mod("completions.operators")
    ops = {**O.EFF_OPERATORS, **O.DERIV_EFF_OPERATORS}
    names = [n for n in ops]
    n = g.pick("op", range(len(names)))
    op = ops[names[n]]
    all_ = [op.operator]
    if (n % 9 == 0 if g.thorough else n in (1, 5, 30)) and op.mass_dimension < 11:
        for c in itertools.islice(g.fn(K + "completions")(op), 3):
            all_ += list(c.terms)
    for o in all_:
        g.ensure("in a notebook", o._repr_html_() == "$" + o.latex() + "$")
        named = renamed(g, o)
        for shown in ("udci", "ci")[: 2 if g.thorough or n % 8 == 0 else 1]:
            judge(g, named, named.indexed_fields, shown)
        g.ensure("by their names", Counter(o.latex().replace(" ", ""))["X"] == 0 and all(f.get_latex() in o.latex() for f in o.indexed_fields))


def renamed(g, o):
    """The operator with its fields written X0, X1, ..."""
    IF = g.fn(M + "IndexedField")
    out, k = [], 0
    for t in o.tensors:
        if isinstance(t, IF):
            tex = f"X{k}"
            if t.derivs:
                tex = "(" + "D" * t.derivs + {True: "\\tilde{X%d}", False: "X%d"}[bool(t.is_conj)] % k + ")"
            out.append(IF(**{**t._dict, "latex": tex}))
            k += 1
        else:
            out.append(t)
    return g.fn(M + "Operator")(*out)


@contract(P, covers=[M + "Operator.latex"], mode="conc", exhaustive=True)
def chained(g):
    """Epsilons contracted with one another share a letter that stands nowhere else."""
    F, eps, delta, Op = (g.fn(M + n) for n in ("Field", "eps", "delta", "Operator"))
    a = F("S", "00001", charges={"y": 0}, latex="X0")("i0")
    b = F("T", "00001", charges={"y": 0}, latex="X1")("i1")
    up = g.pick("colour", [False, True])
    if up:
        fs = [F("S", "00100", charges={"y": 0}, latex=f"X{k}", is_conj=g.bool(f"conj{k}"))(f"c{k}") for k in range(4)]
        ts = [eps("-c0 -c1 -c9"), eps("c9 c8 c7"), eps("-c8 -c2 -c3")][: g.pick("chain", [1, 2])]
        ts = [eps("-c0 -c1 -c9"), delta("c9 -c2")] if g.bool("delta") else ts
        op = Op(*fs, *ts)
        got, es = read(op.latex(), 4)
        ls = [x for v in got.values() for x in v]
        g.ensure("letters", len(set(ls)) == 4 and all(len(v) == 1 for v in got.values()))
        name = {f"c{k}": got[k][0] for k in range(4)}
        want = [[name.get(i.label.replace("-", "")) or i.label.replace("-", "") for i in e.indices] for e in op.epsilons]
        hidden = sorted({x for w in want for x in w if x not in name.values()})
        left = sorted({x for _, e in es for x in e} - set(name.values()))
        g.ensure("new letters", len(left) == len(hidden))
        g.ensure("shared", any(Counter(tuple(sorted(dict(zip(hidden, p)).get(x, x) for x in w)) for w in want) == Counter(tuple(sorted(e)) for _, e in es) for p in itertools.permutations(left)))
    else:
        judge(g, Op(a, b, eps("-i0 -i1")), [a, b], "udci")
