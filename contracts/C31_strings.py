"""Strings of fields that can make an invariant."""

import itertools
from collections import Counter

from contracts.groups import products
from vx.harness import contract

LEVEL = "proof"
P = "C31"
L = "tensormethod.lagrangian."
S = "tensormethod.smeft."
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.contract", "tensormethod.lagrangian", "tensormethod.smeft")
ASSUMES = (
    "decompose_product by its contracts (C05): here any lists of products",
    "the mass dimension of a field by its contract (C26)",
)
SM = ("L", "eb", "Q", "db", "ub", "H")


class Bar:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return lambda *a, **k: None

    def __exit__(self, *a):
        return False


def key(f):
    return (f.label, bool(f.is_conj))


def contents(fields, n, derivative):
    """Every choice of n of the fields, their conjugates and the derivative."""
    ks = [(f.label, c) for f in fields for c in (False, True)] + ([("D", False)] if derivative else [])
    return [Counter(c) for c in itertools.combinations_with_replacement(ks, n)]


@contract(P, covers=[L + "npoint_fieldstrings", L + "with_lepton_number"], world="ghost", secs=60, gsecs=10)
def one_string_each(g):
    """For every choice of n of the fields, their conjugates and (if wanted) the
    derivative that is accepted and has a singlet among its products, one such singlet;
    for no other. The fields given stay as they are."""
    sm = g.mod("tensormethod.sm")
    names = g.pick("fields", [("L",), ("H", "eb"), ("Q", "L")])
    n = g.pick("n", [1, 2] if len(names) > 1 else [1, 2, 3])
    derivative = g.pick("derivative", [False, True])
    fields = tuple(getattr(sm, x) for x in names)
    was = [(f, dict(f.charges)) for f in map(lambda x: getattr(sm, x), SM)]
    all_ = contents(fields, n, derivative)
    # one of the choices is followed closely; the others have no singlets
    k = g.pick("which", range(len(all_)))
    sizes = g.pick("products", [0, 1, 2])
    flags = [g.bool(f"singlet{j}") for j in range(sizes)]
    ok = g.bool("accepted")
    filtered = g.pick("filter", [False, True])
    made = []

    class Product:
        def __init__(self, content, flag):
            self.content, self.is_singlet = content, flag

    def products_of(*fs):
        c = Counter(map(key, fs))
        made.append(c)
        return [Product(c, x) for x in (flags if c == all_[k] else [False])]

    def accept(combo):
        return ok if Counter(map(key, combo)) == all_[k] else True

    g.callee(L + "decompose_product", products_of)
    g.callee(L + "alive_bar", Bar)
    out = g.fn(L + "npoint_fieldstrings")(n, fields, derivs=derivative, func=accept if filtered else None)
    want = g.any(flags)
    if filtered:
        want = g.all([want, ok])
    g.ensure("one if any", g.iff(len(out) == 1, want))
    g.ensure("at most one", len(out) <= 1)
    g.ensure("of these fields, a singlet", g.all(g.all([x.content == all_[k], x.is_singlet]) for x in out))
    g.ensure("every choice once", all(Counter(map(frozenset, (c.items() for c in made)))[frozenset(c.items())] == (0 if c == all_[k] and filtered and not ok else 1) for c in all_) and len(made) <= len(all_))
    g.ensure("the fields unchanged", g.all(g.all([dict(f.charges).keys() == c.keys()] + [f.charges[x] == c[x] for x in c]) for f, c in was))


def chain(g, n, masses):
    """A product of n fields as it is remembered."""
    Prod = g.fn(M + "Prod")

    class F:
        def __init__(self, m):
            self.mass_dim = m

    p = F(masses[0])
    for id_, m in enumerate(masses[1:]):
        p = Prod(F(g.real(f"of a product {id_}")), p, F(m))
    return p


@contract(P, covers=[L + "prod_mass_dim", S + "prod_mass_dim"], secs=30)
def dimension(g):
    """The mass dimension of a product is the sum of those of the fields multiplied."""
    n = g.pick("n", [2, 3, 4, 5])
    masses = [g.real(f"m{k}") for k in range(n)]
    p = chain(g, n, masses)
    for mod in (L, S):
        got = g.fn(mod + "prod_mass_dim")(p)
        want = 0
        for m in masses:
            want = want + m
        g.ensure("sum", got == want)


@contract(P, covers=[L + "generate_fieldstrings"], secs=30)
def up_to_dimension(g):
    """The strings of two fields up to as many as the largest dimension, those that do
    not exceed it; derivatives as asked for."""
    top = g.pick("largest", [1, 2, 3, 4])
    derivative = g.pick("derivative", [False, True])
    sizes = {n: g.pick(f"strings{n}", [0, 1, 2]) for n in range(2, top + 1)}
    asked = []

    class String:
        def __init__(self, n, j):
            self.name, self.dim = (n, j), g.real(f"dim{n}_{j}")

        def walked(self):
            return ("walked", self)

    made = {n: [String(n, j) for j in range(s)] for n, s in sizes.items()}

    def strings(n, fields, derivs=False, func=None):
        asked.append((n, fields, derivs, func))
        return made[n]

    def dim(p):
        assert p[0] == "walked"
        return p[1].dim

    g.callee(L + "npoint_fieldstrings", strings)
    g.callee(L + "prod_mass_dim", dim)
    out = g.fn(L + "generate_fieldstrings")(top, "the fields", derivs=derivative)
    names = [x.name for x in out]
    g.ensure("each once", len(set(names)) == len(names))
    for n in made:
        for x in made[n]:
            g.ensure("exactly those not too large", g.iff(x.name in names, x.dim <= top))
    g.ensure("asked", sorted(asked) == [(n, "the fields", derivative, None) for n in range(2, top + 1)])


@contract(P, covers=[S + "generate_operators"], secs=60)
def operators_up_to_dimension(g):
    """Every singlet among the products of two fields up to as many as the largest
    dimension, of those that do not exceed it."""
    top = g.pick("largest", [1, 2, 3])
    fields = g.pick("fields", ["a", "ab", "abc"])
    combos = [c for n in range(2, top + 1) for c in itertools.combinations_with_replacement(fields, n)]
    k = g.pick("which", range(max(len(combos), 1)))
    size = g.pick("products", [0, 1, 2])
    asked = []

    class Product:
        def __init__(self, c, j):
            self.name = (c, j)
            self.is_singlet, self.dim = g.bool(f"singlet{j}"), g.real(f"dim{j}")

        def walked(self):
            return ("walked", self)

    ps = [Product(combos[k], j) for j in range(size)] if combos else []

    def products_of(*fs):
        asked.append(fs)
        return ps if fs == combos[k] else []

    def dim(p):
        assert p[0] == "walked"
        return p[1].dim

    g.callee(S + "decompose_product", products_of)
    g.callee(S + "prod_mass_dim", dim)
    g.callee(S + "print", lambda *a, **k: None)
    out = g.fn(S + "generate_operators")(top, list(fields), verbose=g.pick("verbose", [False, True]))
    names = [x.name for x in out]
    g.ensure("each once", len(set(names)) == len(names))
    for x in ps:
        g.ensure("exactly the singlets not too large", g.iff(x.name in names, g.all([x.is_singlet, x.dim <= top])))
    g.ensure("every choice once", Counter(map(tuple, map(sorted, asked))) == Counter(combos))


def neutral(c, known):
    """Whether fields of this content can make a singlet without hypercharge."""
    fs = [known[k] for k, n in c.items() for _ in range(n)]
    if sum(f.charges["y"] for f in fs) != 0:
        return False
    return products([f.dynkin_ints for f in fs])[(0, 0, 0, 0, 0)] > 0


def used(s):
    """The fields a string was multiplied from."""
    out, h = [], s
    while h.history:
        out.append(h.history.right)
        h = h.history.left
    return out + [h]


@contract(P, covers=[L + "npoint_fieldstrings", L + "with_lepton_number", L + "prod_mass_dim", L + "generate_fieldstrings"], mode="conc", exhaustive=True, gsecs=60)
def standard_model(g):
    """The strings of Standard Model fields are those whose product contains a neutral
    singlet; they know their lepton number; the fields are as before, and so is what is
    computed from them."""
    sm = g.mod("tensormethod.sm")
    core = g.mod(M[:-1])
    names = g.pick("fields", [SM, ("L", "H"), ("H", "eb", "L"), ("Q", "db", "H"), ("ub", "db"), ("L", "exotic")])
    derivative = g.pick("derivative", [False, True])
    exotic = core.Field("S", "00002", charges={"y": 1, "3b": 0, "l": -2})
    fields = tuple(exotic if x == "exotic" else getattr(sm, x) for x in names)
    was = {x: dict(getattr(sm, x).charges) for x in SM}
    known = {(f.label, False): f for f in fields}
    known.update({(f.label, True): f.conj for f in fields})
    if derivative:
        known[("D", False)] = core.Field("D", "11000", charges={"y": 0, "3b": 0})
    lepton = {"L": 1, "eb": -1, "S": -2}
    g.callee(L + "alive_bar", Bar)
    top = 4 if len(names) < 4 and not derivative else 3
    for n in range(2, top + 1):
        out = g.fn(L + "npoint_fieldstrings")(n, fields, derivs=derivative)
        got = Counter(frozenset(Counter(map(key, used(s))).items()) for s in out)
        want = Counter(frozenset(c.items()) for c in contents(fields, n, derivative) if neutral(c, known))
        g.ensure("strings", got == want)
        for s in out:
            fs = used(s)
            g.ensure("neutral", s.is_singlet)
            g.ensure("baryon number", s.charges["3b"] == sum(known[key(f)].charges["3b"] for f in fs))
            g.ensure("lepton number", s.charges["l"] == sum(lepton.get(f.label, 0) * (-1 if f.is_conj else 1) for f in fs))
    for d in (2, 3, 4) if len(names) < 4 else (3,):
        out = g.fn(L + "generate_fieldstrings")(d, fields, derivs=derivative)
        mass = {k: 1.5 if f.is_fermion else 1 for k, f in known.items()}
        want = Counter()
        for n in range(2, d + 1):
            for c in contents(fields, n, derivative):
                if sum(mass[k] * m for k, m in c.items()) <= d and neutral(c, known):
                    want[frozenset(c.items())] += 1
        g.ensure("up to the dimension", Counter(frozenset(Counter(map(key, used(s))).items()) for s in out) == want)
    said = lambda ss: Counter(frozenset(Counter(map(key, used(s))).items()) for s in ss)
    g.ensure("all fields and no derivative unless said", said(g.fn(L + "npoint_fieldstrings")(3)) == said(g.fn(L + "npoint_fieldstrings")(3, tuple(getattr(sm, x) for x in SM), derivs=False)))
    g.ensure("with derivatives unless said", said(g.fn(L + "generate_fieldstrings")(3, fields)) == said(g.fn(L + "generate_fieldstrings")(3, fields, derivs=True)))
    g.ensure("the fields unchanged", all(dict(getattr(sm, x).charges) == was[x] for x in SM))


@contract(P, covers=[S + "generate_operators", S + "prod_mass_dim"], mode="conc", exhaustive=True, gsecs=60)
def smeft_operators(g):
    """The same for the products of smeft, whose fields carry lepton number and are not
    those of other modules."""
    sm = g.mod("tensormethod.sm")
    m = g.mod(S[:-1])
    g.ensure("others untouched", all("L" not in getattr(sm, x).charges for x in SM))
    g.ensure("lepton number", {f.label: f.charges["L"] for f in m.SM} == {"L": 1, "eb": -1, "Q": 0, "H": 0, "ub": 0, "db": 0})
    top = g.pick("largest", [2, 3, 4])
    names = g.pick("fields", [("L", "H"), ("H", "eb", "L"), ("Q", "db", "H")])
    fields = [f for f in m.SM if f.label in names]
    fields = fields + [f.conj for f in fields]
    out = g.fn(S + "generate_operators")(top, fields)
    known = {key(f): f for f in fields}
    want = Counter()
    for n in range(2, top + 1):
        for c in itertools.combinations_with_replacement(list(known), n):
            c = Counter(c)
            if sum((1.5 if known[k].is_fermion else 1) * q for k, q in c.items()) <= top and neutral(c, known):
                want[frozenset(c.items())] = 1
    got = Counter(frozenset(Counter(map(key, used(s))).items()) for s in out)
    g.ensure("contents", set(got) == set(want))
    g.ensure("singlets", all(s.is_singlet and s.charges["y"] == 0 for s in out))
