"""Summaries: mass dimension, kinds of fields, quantum numbers of exotic fields."""

from contracts.lib import charges
from vx.harness import contract

LEVEL = "proof"
P = "C26"
K = "completions.core."
O = "completions.operators."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "completions.operators")
ASSUMES = (
    "sums over sequences of any length are compared by the function summed (linear sums brought to one form)",
    "interface of sympy's TensorIndex/Tensor as in vx/ghost_tensor.py",
)


class Part:
    """Stands for a field of an operator: what the summaries ask of one."""

    def __init__(self, **k):
        self.__dict__.update(k)


class Holder:
    def __init__(self, fields):
        self.fields = fields
        self.indexed_fields = fields


def operator(g, fields):
    return g.fn(K + "EffectiveOperator")("o", Holder(fields))


@contract(P, covers=[K + "EffectiveOperator.mass_dimension"], runs=120, world="ghost")
def dimension_any_size(g):
    """The mass dimension adds up those of any number of fields and derivatives."""
    m, d = g.ufun("m", "int", 1, 4), g.ufun("d", "int", 0, 3)
    fields = g.seq("fields", lambda k: Part(mass_dim=m(k), derivs=d(k)))
    got = operator(g, fields).mass_dimension
    want = sum_of(g, fields, lambda f: f.mass_dim + f.derivs)
    g.ensure("dimension", got == want)


@contract(P, covers=[K + "EffectiveOperator.mass_dimension"], runs=120, world="ghost")
def dimension(g):
    """Halves add up to a whole number, or the operator is refused."""
    n = g.pick("n", [0, 1, 2, 3, 4])
    twice = [g.int(f"m{k}", 2, 6) for k in range(n)]
    derivs = [g.int(f"d{k}", 0, 2) for k in range(n)]
    R = (lambda x: x / 2) if g.symbolic else half
    op = operator(g, [Part(mass_dim=R(t), derivs=d) for t, d in zip(twice, derivs)])
    tot = 2 * sum(derivs) + sum(twice)
    if tot % 2 == 0:
        g.ensure("dimension", 2 * op.mass_dimension == tot)
    else:
        g.expect("half a dimension refused", AssertionError, lambda: op.mass_dimension)


def half(x):
    import sympy

    return sympy.Rational(x, 2)


def sum_of(g, over, f):
    if not g.symbolic:
        return sum(f(x) for x in over)
    from vx.seq import SymSeq, fold_sum

    if not isinstance(over, SymSeq):
        return sum(f(x) for x in over)
    return fold_sum(SymSeq(over.n, lambda k: f(over.at(k)), "sum"))


@contract(P, covers=["tensormethod.core.Operator.mass_dim", "tensormethod.core.Operator.fields", "tensormethod.core.Operator.indexed_fields"], mode="conc", runs=150)
def product_dimension(g):
    """The dimension of a product counts every field, equal ones too, and no epsilon."""
    F, eps = g.fn("tensormethod.core.Field"), g.fn("tensormethod.core.eps")
    fs, iso = [], []
    for k in range(g.int("n", 1, 6)):
        d = g.pick(f"d{k}", ["00000", "00001", "10000", "01001", "11000"])
        ix = [t + str(n) for t, n in zip("udi", (0, 0, k)) if int(d["udcci".index(t)])]
        fs.append(F("X" + d, d, charges={"y": 1}, latex="x", comm=0)(" ".join(i if i[0] == "i" else f"{i[0]}{k}" for i in ix)))
        iso += [i for i in ix if i[0] == "i"]
    op = fs[0]
    for t in fs[1:] + ([eps(f"-{iso[0]} -{iso[1]}")] if len(iso) > 1 else []):
        op = op * t
    g.assume(len(fs) > 1)
    want = sum(3 if f.is_fermion else 2 for f in fs)
    g.ensure("dimension", 2 * op.mass_dim == want)
    g.ensure("all fields", sorted(f.label for f in op.fields) == sorted(f.label for f in fs) and len(op.indexed_fields) == len(fs))
    g.ensure("epsilons", len(op.epsilons) == (len(iso) > 1))


@contract(P, covers=[K + "EffectiveOperator.topology_type"], runs=200, world="ghost")
def kinds_any_size(g):
    """Scalars and fermions of an operator of any size are counted, each once."""
    b = g.ufun("boson", "bool")
    fields = g.seq("fields", lambda k: Part(is_boson=b(k), is_fermion=g.neg(b(k))))
    if g.symbolic:
        ns = g.fold("ns", 0, lambda acc, f: acc + (1 if bool(f.is_boson) else 0), fields)
        nf = g.fold("nf", 0, lambda acc, f: acc + (1 if bool(f.is_fermion) else 0), fields)
        g.loop("topology_type", ns, nf, over=fields)
        want = {"n_scalars": ns.total(), "n_fermions": nf.total()}
    else:
        want = {"n_scalars": sum(1 for f in fields if f.is_boson), "n_fermions": sum(1 for f in fields if f.is_fermion)}
    g.ensure("counted", g.eq(operator(g, fields).topology_type, want))


SHAPES = {
    "u": ("F", "00", "0"), "u i": ("F", "00", "1"), "u c": ("F", "10", "0"), "u -c i": ("F", "01", "1"),
    "d": ("F", "00", "0"), "d -c": ("F", "01", "0"), "": ("S", "00", "0"), "i": ("S", "00", "1"), "c": ("S", "10", "0"),
    "-c i": ("S", "01", "1"), "c c": ("S", "20", "0"), "-c -c i i": ("S", "02", "2"), "c -c": ("S", "11", "0"),
    "i i": ("S", "00", "2"), "u c -c i i i": ("F", "11", "3"), "-c c c": ("S", "21", "0"),
}


def exotic(g, name, shapes=None):
    """An exotic field of a listed shape with any charges."""
    s = g.pick(name + "_shape", list(shapes or SHAPES))
    ix = []
    for k, x in enumerate(s.split()):
        r = g.text(f"{name}_i{k}", only="0123456789", lo=1)
        for sx, other in ix:
            if sx == x:
                g.assume(g.neg(other == r))
        ix.append((x, r))
    c = {"y": g.real(name + "_y"), "3b": g.real(name + "_b")}
    cls = "VectorLikeDiracFermion" if SHAPES[s][0] == "F" else "ComplexScalar"
    f = g.fn(K + cls)(name, g.join(" ", [x + r for x, r in ix]), charges=c, latex=name)
    return f, SHAPES[s], c


def info_of(shape, c, lower=False):
    lor, col, iso = shape
    if lower:
        col = col[::-1]
        c = {k: -v for k, v in c.items()}
    return (lor, *col, iso, ("3b", c["3b"]), ("y", c["y"]))


def a_model(es):
    class C:
        pass

    c = C()
    c.exotics = es
    return c


@contract(P, covers=[K + "Completion.exotic_info", K + "FieldType.__new__"], runs=150, world="ghost", secs=60)
def exotic_info(g):
    """Every exotic field is listed with its spin, labels and charges, taken at
    non-negative hypercharge; a field and its conjugate are listed alike."""
    f, shape, c = exotic(g, "X")
    info = g.fn(K + "Completion").exotic_info
    got = info(a_model([f]))
    neg = bool(c["y"] < 0)
    want = info_of(shape, c, neg)
    g.ensure("one entry", len(got) == 1)
    (k, v), = got.items()
    g.ensure("for the field", k is f)
    g.ensure("quantum numbers", same_info(g, v, want))
    if not bool(c["y"] == 0):
        (_, w), = info(a_model([f.conj])).items()
        g.ensure("conjugate listed alike", same_info(g, w, v))


def same_info(g, a, b):
    return len(a) == len(b) and g.all([g.str(x) == g.str(y) if not isinstance(x, tuple) else g.eq(x, y) for x, y in zip(a, b)])


@contract(P, covers=[K + "Completion.exotic_info", K + "Completion.exotic_fields"], runs=100, mode="conc")
def several(g):
    """Every exotic field once, conjugates as one field or two as they are given."""
    n = g.pick("n", [1, 2, 3])
    es = [exotic(g, f"X{k}")[0] for k in range(n)]
    m = a_model(set(es))
    got = g.fn(K + "Completion").exotic_info(m)
    g.ensure("every field", set(got) == set(es))
    fs = g.fn(K + "Completion").exotic_fields(m)
    g.ensure("fields without indices", fs == {e.field for e in es})


@contract(P, covers=[K + "Completion.exotic_info"], runs=20, world="ghost")
def vectors_refused(g):
    """A field that is neither scalar nor fermion is refused."""
    f = g.fn("tensormethod.core.Field")("V", "11000", charges={"y": g.real("y"), "3b": 0})
    e = f("u0 d0")
    g.expect("vector", ValueError, lambda: g.fn(K + "Completion").exotic_info(a_model([e])))


DIMS = {"00": 1, "10": 3, "01": 3, "20": 6, "02": 6, "11": 8, "30": 10, "03": 10, "21": 15, "12": 15, "22": 27, "31": 24, "13": 24}


@contract(P, covers=[K + "format_quantum_numbers"], runs=200)
def formatted(g):
    """Quantum numbers are written as dimensions, a bar where there are more
    lowered than raised colour indices, and the two charges."""
    lor = g.pick("lorentz", ["S", "F"])
    col = g.pick("colour", list(DIMS), quick=9)
    iso = g.pick("isospin", ["0", "1", "2", "3", "4"], quick=4)
    y, b = g.real("y"), g.real("b")
    cs = [("3b", b), ("y", y)]
    if g.bool("swap"):
        cs = cs[::-1]
    got = g.fn(K + "format_quantum_numbers")((lor, col[0], col[1], iso, *cs))
    bar = "b" if col[1] > col[0] else ""
    want = g.join("", [lor, "(", str(DIMS[col]), bar, ", ", str(int(iso) + 1), ", ", g.str(y), ")(", g.str(b), ")"])
    g.ensure("text", got == want)


@contract(P, covers=[K + "Model.exotic_numbers", K + "Model.__repr__"], runs=150, mode="conc")
def model_numbers(g):
    """A model's numbers: the formatted content, sorted, each once, whichever of
    a field and its conjugate is used, and whichever completion is looked at."""
    n = g.pick("n", [1, 2, 3])
    rows = [exotic(g, f"X{k}", ["u", "u c", "i", "c", "-c i", "i i"]) for k in range(n)]
    es = [f for f, _, _ in rows]
    texts = set()
    fmt = g.fn(K + "format_quantum_numbers")
    for f, s, c in rows:
        texts.add(fmt(info_of(s, c, c["y"] < 0)))
        g.assume(c["y"] != 0)

    def model(xs):
        m = a_model(xs)
        m.exotic_info = lambda: g.fn(K + "Completion").exotic_info(m)
        return g.fn(K + "Model")([m])

    got = model(es).exotic_numbers
    g.ensure("sorted", got == sorted(got))
    g.ensure("content", got == sorted(texts))
    cj = [e.conj if g.bool(f"conj{k}") else e for k, e in enumerate(es)]
    g.ensure("blind to conjugation", model(cj).exotic_numbers == got)
    g.ensure("text", repr(model(es)) == "Model(" + " + ".join(got) + ")")


def catalogue(g):
    E, D = g.fn(O + "EFF_OPERATORS"), g.fn(O + "DERIV_EFF_OPERATORS")
    return {**E, **D}


@contract(P, covers=[K + "EffectiveOperator.mass_dimension", K + "EffectiveOperator.topology_type"], mode="conc", runs=1, gsecs=60)
def whole_catalogue(g):
    """Every operator of the catalogue: the dimension is odd, as lepton number is
    broken by two, and is what its fields and derivatives add up to."""
    for name, op in catalogue(g).items():
        fs = op.indexed_fields
        ferm = [f for f in op.fields if spin(g, f)]
        tot = 0
        for f in op.fields:
            tot += (3 if spin(g, f) else 2) + 2 * f.derivs
        g.ensure(f"{name}: whole dimension", tot % 2 == 0)
        g.ensure(f"{name}: dimension", op.mass_dimension == tot // 2)
        g.ensure(f"{name}: odd", op.mass_dimension % 2 == 1)
        t = op.topology_type
        g.ensure(f"{name}: kinds", t == {"n_scalars": len(op.fields) - len(ferm), "n_fermions": len(ferm)})


def spin(g, f):
    return 1 if f.comm == g.fn("tensormethod.core.FERMI") else 0
