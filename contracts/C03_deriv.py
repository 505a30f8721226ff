"""Covariant derivatives acting on fields."""

import itertools

from contracts.lib import field, charges, raises, TYPES
from contracts.C02_conj import shape, dyn
from vx.harness import contract

LEVEL = "proof"
P = "C03"
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.utils", "completions.core", "completions.completions", "completions.operators")
ASSUMES = (
    "fields have free label, Dynkin digits, charges, statistics, flavour count and flag; latex without parentheses",
    "interface of sympy's TensorIndex/Tensor as in vx/ghost_tensor.py",
)


@contract(P, covers=[M + "D"], world="ghost", secs=60, gsecs=10)
def derivative(g):
    """D(f, target) is accepted exactly when each Lorentz label moves by one; it has
    the target labels, one more derivative, and f's gauge labels, charges,
    statistics, flavour count and flag."""
    n = g.int("derivs", 0, 2) if g.symbolic else g.int("derivs", 0, 6)
    f, d = field(g, "f", derivs=n, extra=False, hi=3 if g.thorough else 2)
    t = g.digit("t0", 4), g.digit("t1", 4)
    lo = f.dynkin_ints
    du, dd = _i(t[0]) - lo[0], _i(t[1]) - lo[1]
    ok = bool(g.any([du == 1, du == -1])) and bool(g.any([dd == 1, dd == -1]))
    D = g.fn(M + "D")
    if not ok:
        g.ensure("rejected", raises(lambda: D(f, t[0] + t[1]), AssertionError))
        return
    x = D(f, t[0] + t[1])
    g.ensure("dynkin", x.dynkin == t[0] + t[1] + d[2] + d[3] + d[4])
    g.ensure("one more derivative", x.derivs == f.derivs + 1)
    g.ensure("charges", g.eq(x.charges, f.charges))
    g.ensure("rest", g.all([x.comm == f.comm, x.nf == f.nf, g.iff(x.is_conj, f.is_conj)]))
    g.ensure("statistics", bool(x.is_boson) == bool(f.is_boson))
    g.ensure("label", x.label == "D" + f.label)


def _i(s):
    from vx import core

    return core.to_int(s)


@contract(P, covers=[M + "D", M + "IndexedField.strip_derivs"], world="ghost", secs=60, gsecs=10)
def strip_inverse(g):
    """Stripping n derivatives (n = 1, 2) from a differentiated field, called on
    indices, gives back the field that was differentiated; stripping a field
    without derivatives changes nothing."""
    ix = shape(g, shapes=["u", "d", "i", "ui", "dci", "u-ci", "", "-ci", "ci"])
    dk = dyn(ix)
    f = g.fn(M + "Field")(g.text("label", no="†(),: \\", lo=1), dk, charges=charges(g, "f"), is_conj=g.bool("is_conj"),
                          comm=g.int("comm", 0, 1), nf=g.pick("nf", [1, 3]), latex=g.text("latex", lo=1, no="()"))
    D = g.fn(M + "D")
    x = f
    lor = dk[:2]
    n = g.pick("n", [0, 1, 2])
    for k in range(n):
        opts = [(int(lor[0]) + a, int(lor[1]) + b) for a in (1, -1) for b in (1, -1)]
        opts = [o for o in opts if min(o) >= 0]
        o = g.pick(f"step{k}", opts)
        lor = f"{o[0]}{o[1]}"
        x = D(x, lor)
    labs = ["u%d" % k for k in range(int(lor[0]))] + ["d%d" % k for k in range(int(lor[1]))]
    labs += [q[3] for q in ix if q[1] not in "ud"]
    y = x(g.join(" ", labs))
    s = y.strip_derivs()
    if n == 0:
        g.ensure("unchanged", s is y)
        return
    g.ensure("derivs", y.derivs == n)
    g.ensure("the field", s == f)
    g.ensure("latex", s.latex == f.latex)
    g.ensure("no trace", s.stripped is None and s.derivs == 0)
    g.ensure("same hash", g.eq(g.hash(s), g.hash(f)))


@contract(P, covers=[M + "D", M + "Field.conj", M + "IndexedField.conj", M + "IndexedField.strip_derivs", M + "conj_stripped", M + "conj_latex", M + "Field.get_latex"], world="ghost", secs=60, gsecs=10)
def conj_of_derivative(g):
    """The conjugate of a derivative is the derivative of the conjugate; stripped of it,
    it is the conjugate field, whichever is done first; both are written alike."""
    ix = shape(g, shapes=["u", "d", "i", "ui", "dci", "u-ci", "", "ci"])
    dk = dyn(ix)
    f = g.fn(M + "Field")(g.text("label", no="†(),: \\", lo=1), dk, charges=charges(g, "f"), is_conj=g.bool("is_conj"),
                          comm=g.int("comm", 0, 1), nf=g.pick("nf", [1, 3]), latex=g.text("latex", lo=1, no="()"))
    D = g.fn(M + "D")
    opts = [(int(dk[0]) + a, int(dk[1]) + b) for a in (1, -1) for b in (1, -1)]
    o = g.pick("target", [o for o in opts if min(o) >= 0])
    x, c = D(f, f"{o[0]}{o[1]}"), D(f.conj, f"{o[1]}{o[0]}")
    if g.pick("derivatives", [1, 2]) == 2:
        opts = [(o[0] + a, o[1] + b) for a in (1, -1) for b in (1, -1)]
        o = g.pick("second target", [o for o in opts if min(o) >= 0][-2:])
        x, c = D(x, f"{o[0]}{o[1]}"), D(c, f"{o[1]}{o[0]}")
    g.ensure("same", x.conj == c)
    g.ensure("latex", g.all([x.conj.latex == c.latex, x.conj.get_latex() == c.get_latex(), x.conj.conj.latex == x.latex]))
    labs = ["u%d" % k for k in range(o[0])] + ["d%d" % k for k in range(o[1])] + [q[3] for q in ix if q[1] not in "ud"]
    y = x(g.join(" ", labs)).conj
    g.ensure("stripped", y.strip_derivs() == f.conj)
    g.ensure("with indices", g.all([y.field == c, y.latex == c.latex]))


@contract(P, covers=[M + "IndexedField.strip_derivs_with_indices", M + "IndexedField.gauge_indices"], world="ghost", secs=60, gsecs=10)
def strip_with_indices(g):
    """Stripping with indices gives the undifferentiated field with the gauge indices
    in place, and a Lorentz index of the right type when the field has one: one that
    the differentiated field has, marked when a derivative turned it over."""
    f0 = g.pick("base", ["10001", "10101", "10010", "10000", "00001", "00100"])
    f = g.fn(M + "Field")("X", f0, charges=charges(g, "f"), is_conj=False, comm=g.int("comm", 0, 1), nf=1, latex="x")
    conj = g.bool("conj")
    f = f.conj if conj else f
    D = g.fn(M + "D")
    fermion = f.is_fermion
    x, lor = f, [f.dynkin[:2]]
    for k in range(g.pick("derivatives", [1, 2] if g.symbolic else [1, 2, 3, 4])):
        a, b = map(int, lor[-1])
        lor.append(g.pick(f"to{k}", [f"{a + p}{b + q}" for p, q in ((-1, 1), (1, -1), (-1, -1), (1, 1)) if min(a + p, b + q) >= 0]))
        x = D(x, lor[-1])
    u = [g.text(f"u{k}", only="0123456789", lo=1) for k in range(int(lor[-1][0]))]
    d = [g.text(f"d{k}", only="0123456789", lo=1) for k in range(int(lor[-1][1]))]
    for t in (u, d):
        g.assume(g.all(g.neg(a == b) for k, a in enumerate(t) for b in t[:k]))
    dk = x.dynkin
    gauge = [("" , "c", g.text("c", only="0123456789", lo=1))] * (dk[2] == "1") + [("-", "c", g.text("cb", only="0123456789", lo=1))] * (dk[3] == "1")
    gauge += [("", "i", g.text("i", only="0123456789", lo=1))] * (dk[4] == "1")
    labs = ["u" + r for r in u] + ["d" + r for r in d] + [s + t + r for s, t, r in gauge]
    y = x(g.join(" ", labs))
    s = y.strip_derivs_with_indices()
    g.ensure("no derivatives", s.derivs == 0)
    g.ensure("field", s.field == f)
    gi = [i for i in s.indices if i.index_type not in ("Undotted", "Dotted")]
    g.ensure("gauge indices", len(gi) == len(gauge) and g.all(
        g.all([i.name == t + r, bool(i.is_up) == (sg == "")]) for i, (sg, t, r) in zip(gi, gauge)))
    g.ensure("gauge_indices", g.all(a == b for a, b in zip(y.gauge_indices, gi)))
    own = [i for i in s.indices if i.index_type in ("Undotted", "Dotted")]
    g.ensure("a Lorentz index for a fermion", len(own) == (1 if fermion else 0))
    if fermion:
        odd, t = x.derivs % 2, own[0].index_type
        turned = {"Undotted": "d", "Dotted": "u"}[t]
        g.ensure("of its own", g.any(own[0].name == r + "∂" for r in [("u" if t == "Undotted" else "d") + q for q in (d if turned == "d" else u)]) if odd else g.any(own[0] == i for i in y.indices))


@contract(P, covers=["completions.utils.allowed_lor_dyn"], mode="conc", exhaustive=True)
def allowed(g):
    """The lowest allowed Lorentz labels for a derivative differ by one in each label
    from the field's."""
    f = g.fn(M + "Field")("X", g.pick("d", ["10001", "01001", "00001", "00000", "10110"]))
    t = g.fn("completions.utils.allowed_lor_dyn")(f)
    g.ensure("moves by one", all(abs(int(a) - b) == 1 for a, b in zip(t, f.lorentz_irrep)) and len(t) == 2)
    g.ensure("accepted", g.fn(M + "D")(f, t).derivs == 1)


@contract(P, covers=["completions.completions.operator_strip_derivs", "completions.completions.derivative_combinations"],
          mode="conc", exhaustive=True, gsecs=30)
def operators_with_derivatives(g):
    """Stripping a derivative operator keeps its fields' gauge content and counts its
    derivatives, and every way of letting the derivatives act again has the same
    stripped fields, the same number of derivatives and the same dimension."""
    ops = g.fn("completions.operators.DERIV_EFF_OPERATORS")
    names = sorted(ops)
    if not g.thorough:
        names = names[:8]
    op = ops[g.pick("op", names)]
    strip = g.fn("completions.completions.operator_strip_derivs")
    s = strip(op.operator)
    n = sum(f.derivs for f in op.fields)
    g.ensure("count", s["n_derivs"] == n)
    data = lambda f: (f.label.rstrip("†").lstrip("D"), f.is_conj, str(sorted(f.charges.items())), str(f.comm), f.nf)
    g.ensure("same data", sorted(data(f) for f in op.fields) == sorted(data(f) for f, _ in s["fields"]))
    g.ensure("no derivatives left", all(f.derivs == 0 for f, _ in s["fields"]))
    key = lambda fs: sorted((f.label, f.dynkin, f.is_conj, str(sorted(f.charges.items())), str(f.comm), f.nf) for f, _ in fs)
    for o in g.fn("completions.completions.derivative_combinations")(op):
        t = strip(o.operator)
        g.ensure("same fields", key(t["fields"]) == key(s["fields"]))
        g.ensure("same derivatives", t["n_derivs"] == n)
        g.ensure("same dimension", o.mass_dimension == op.mass_dimension)
        g.ensure("same epsilons", len(t["epsilons"]) == len(s["epsilons"]))


K = "completions.completions."


@contract(P, covers=[K + "derivative_combinations"], secs=40)
def ways_to_act(g):
    """The derivatives act on any choice of different fields: for every distinct outcome
    that does not vanish one operator with the same epsilons, and no other; given an
    effective operator, effective operators of its name."""
    n = g.pick("fields", [1, 2, 3, 4] if g.thorough else [1, 2, 3])
    m = g.pick("derivatives", list(range(0, n + 1)))
    labels = [g.pick(f"f{k}", ["A", "B"]) for k in range(n)]
    where = [g.pick(f"i{k}", ["i0"] if labels[k] == "A" else ["i0", "i1"]) for k in range(n)]
    fields = list(zip(labels, where))
    eps = [("eps", 0)]

    class EO:
        def __init__(self, name, operator):
            self.name, self.operator = name, operator

    class Op:
        def __init__(self, fs, es):
            self.fs, self.es = tuple(fs), list(es)

        def safe_simplify(self, *a):
            return 0 if self.zero() else 1

        simplify = safe_simplify

        def zero(self):
            k = repr(self.fs)
            if k not in vals:
                vals[k] = bool(g.bool("zero" + str(len(vals))))
            return vals[k]

    vals, asked = {}, []
    g.callee(K + "EffectiveOperator", EO)
    g.callee(K + "operator_strip_derivs", lambda op: asked.append(op) or {"fields": list(fields), "epsilons": list(eps), "n_derivs": m})
    g.callee(K + "allowed_lor_dyn", lambda f: ("target", f))
    g.callee(K + "D", lambda f, t: ("D", f) if t == ("target", f) else None)
    g.callee(K + "construct_operator", lambda fs, es: Op(fs, es))
    eff = g.pick("effective", [False, True])
    arg = EO("an operator", "its tensors") if eff else "its tensors"
    out = list(g.fn(K + "derivative_combinations")(arg))
    g.ensure("of the operator", asked == ["its tensors"])
    if eff:
        g.ensure("named", all(isinstance(o, EO) and o.name == "an operator" for o in out))
        out = [o.operator for o in out]
    want = []
    for at in itertools.combinations(range(n), m):
        fs = tuple(((("D", f) if k in at else f), w) for k, (f, w) in enumerate(fields))
        if fs not in want:
            want.append(fs)
    want = [fs for fs in want if not vals.get(repr(fs), False)]
    g.ensure("every way, once", sorted(map(repr, (o.fs for o in out))) == sorted(map(repr, want)))
    g.ensure("the rest", all(o.es == eps for o in out))


@contract(P, covers=[K + "construct_operator", K + "operator_strip_derivs"], world="ghost", secs=60)
def taken_apart(g):
    """An operator taken apart has the fields without their derivatives, with their gauge
    and generation indices, its epsilons, and the number of derivatives; put together
    again, every field has the same indices, with new Lorentz indices of its own."""
    F, IF, eps = g.fn(M + "Field"), g.fn(M + "IndexedField"), g.fn(M + "eps")
    D = g.fn(M + "D")
    kinds = {"L": ("10001", "u i"), "DL": ("10001", "d i"), "H": ("00001", "i"), "DH": ("00001", "u d i"), "q": ("01010", "d -c"), "g": ("10000", "u g")}
    n = g.pick("n", [1, 2, 3])
    fs, ts = [], []
    for k in range(n):
        kind = g.pick(f"kind{k}", list(kinds))
        dk, idx = kinds[kind]
        f = F(f"X{k}", dk, charges={"y": g.real(f"y{k}")}, is_conj=g.pick(f"conj{k}", [False, True]) if g.thorough else False, comm=0, latex="x", nf=3 if kind == "g" else 1)
        x = D(f, "01" if kind == "DL" else "11") if kind[0] == "D" else f
        labs = [t + g.text(f"n{k}{j}", only="0123456789", lo=1) + f"{k}{j}" for j, t in enumerate(idx.split())]
        fs.append((f, x, labs))
        ts.append(x(g.join(" ", labs)))
    es = [eps("-i900 -i901")] if g.bool("epsilon") else []
    op = ts[0]
    for t in ts[1:] + es:
        op = op * t
    if n == 1 and not es:
        return
    parts = g.fn(K + "operator_strip_derivs")(op)
    got, epsilons, m = parts.values()
    g.ensure("number", len(got) == n and m == sum(f is not x for f, x, _ in fs))
    g.ensure("epsilons", len(epsilons) == len(es) and all(a is b or a == b for a, b in zip(epsilons, es)))
    for (f2, s), (f, x, labs) in zip(got, fs):
        g.ensure("field", f2 == f)
        g.ensure("indices", s == g.join(" ", [l for l in labs if l[0] not in "ud"]))
    back = g.fn(K + "construct_operator")(got, epsilons)
    bf = [t for t in back.tensors if isinstance(t, IF)]
    g.ensure("as many", len(bf) == n and len(back.tensors) == n + len(es))
    for b, (f, x, labs) in zip(bf, fs):
        g.ensure("same field", b.field == f)
        mine = [i for i in b.indices if i.index_type not in ("Undotted", "Dotted")]
        g.ensure("same gauge indices", len(mine) == len([l for l in labs if l[0] not in "ud"]))
    new = [str(i) for b in bf for i in b.indices if i.index_type in ("Undotted", "Dotted")]
    g.ensure("own Lorentz indices", len(set(new)) == len(new))
