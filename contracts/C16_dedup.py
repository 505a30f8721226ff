"""Finding each completion once."""

import itertools
from collections import Counter

from contracts.lib import stat
from vx.harness import contract

LEVEL = "proof"
P = "C16"
K = "completions.completions."
U = "utils.functions."
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "completions.operators", "utils.functions")
ASSUMES = (
    "the text of a charge is 0, or digits (with at most one slash) with an optional minus sign in front",
    "unique factorisation into primes; sympy's prime(n)",
)
SM = ("L", "Q", "ub", "db", "eb", "H")


def number(g, name):
    """Text of a rational charge."""
    k = g.pick(name + "_kind", ["0", "+", "-"])
    if k == "0":
        return "0"
    n = g.text(name, only="123456789/", lo=1)
    return n if k == "+" else "-" + n


def exotic_text(g, name):
    lor = g.pick(name + "_lor", ["S", "F"])
    a, b, i = g.digit(name + "_a"), g.digit(name + "_b"), g.digit(name + "_i")
    y, q = number(g, name + "_y"), number(g, name + "_q")
    return g.join(",", [lor, a + b, i, y, q]), (lor, a, b, i, y, q)


@contract(P, covers=[U + "negate_u1"])
def negated(g):
    """negate_u1 is an involution that keeps 0 and otherwise adds or drops the sign."""
    f = g.fn(U + "negate_u1")
    x = number(g, "x")
    y = f(x)
    g.ensure("involution", f(y) == x)
    g.ensure("zero", g.iff(y == x, x == "0"))
    n = g.text("n", only="123456789/", lo=1)
    g.ensure("sign", g.all([f(n) == "-" + n, f("-" + n) == n]))


@contract(P, covers=[U + "conjugate_field", U + "negate_u1"], secs=60)
def conjugated(g):
    """Conjugating the text of a field twice gives it back; a Standard Model field gains
    or loses '.conj', an exotic swaps its colour labels and negates its two charges."""
    f = g.fn(U + "conjugate_field")
    if g.pick("which", ["sm", "exotic"]) == "sm":
        n = g.pick("name", SM)
        g.ensure("sm", g.all([f(n) == n + ".conj", f(n + ".conj") == n]))
        return
    x, (lor, a, b, i, y, q) = exotic_text(g, "x")
    neg = g.fn(U + "negate_u1")
    g.ensure("exotic", f(x) == g.join(",", [lor, b + a, i, neg(y), neg(q)]))
    g.ensure("involution", f(f(x)) == x)


@contract(P, covers=[U + "stringify_qns", U + "conjugate_field"], mode="both", world="ghost", secs=60)
def text_of_conjugate(g):
    """The text of a field says its name (Standard Model) or spin, colour, isospin and
    charges; the text of the conjugate is the conjugate text."""
    s, c = g.fn(U + "stringify_qns"), g.fn(U + "conjugate_field")
    if g.pick("which", ["sm", "exotic"]) == "sm":
        n = g.pick("name", SM)
        f = g.fn("tensormethod.sm." + n)
        g.ensure("sm", g.all([s(f) == n, s(f.conj) == n + ".conj"]))
    else:
        import sympy

        d = [g.pick("lor", ["00", "10", "01"]), g.digit("p", 3), g.digit("q", 3), g.digit("i", 3)]
        num = [0, sympy.Rational(-7, 6), 1, -1, sympy.Rational(1, 3), 2]
        few = g.symbolic
        y, b = g.pick("y", num, quick=3 if few else None), g.pick("b", [0, -2, 1], quick=2 if few else None)
        lab = g.pick("label", ["φ", "Lx", "S1", "ψ~"], quick=2 if few else None)
        f = g.fn(M + "Field")(lab, d[0] + d[1] + d[2] + d[3], charges={"y": y, "3b": b}, is_conj=g.bool("conj"), latex="x")
        g.ensure("exotic", s(f) == g.join(",", ["S" if d[0] == "00" else "F", d[1] + d[2], d[3], str(y), str(b)]))
    g.ensure("conjugate", s(f.conj) == c(s(f)))


@contract(P, covers=[U + "conjugate_term", U + "conjugate_field"], secs=60)
def term_conjugated(g):
    """The conjugate of a term is the sorted conjugates of its fields, whatever their
    order; conjugating twice gives the sorted term."""
    n = g.pick("n", [1, 2, 3])
    fs = []
    for k in range(n):
        if g.pick(f"k{k}", ["sm", "exotic"] if k < 2 else ["sm"]) == "sm":
            fs.append(g.pick(f"n{k}", ["L", "H.conj", "Q.conj"]))
        else:
            lor, a, b, i = "SF"[k % 2], g.digit(f"a{k}"), str(k), "1"
            y = g.pick(f"y{k}", ["0", "1/3", "-2"])
            fs.append(g.join(",", [lor, a + b, i, y, "0"]))
    f, one = g.fn(U + "conjugate_term"), g.fn(U + "conjugate_field")
    got = f(tuple(fs))
    g.ensure("tuple", isinstance(got, tuple) and len(got) == n)
    want = [one(x) for x in fs]
    for w in want:
        g.ensure("the conjugates", g.any(w == x for x in got))
    g.ensure("order of the term", g.eq(f(tuple(reversed(fs))), got))
    back = f(got)
    for x in fs:
        g.ensure("twice", g.any(x == b for b in back))
    g.ensure("sorted twice", g.eq(f(f(back)), back))


class Term:
    def __init__(self, fields):
        self.fields = fields


class Comp:
    def __init__(self, terms, topology, name=""):
        self.terms, self.topology, self.name = terms, topology, name


def completion_pool(g):
    """Fields to write terms with."""
    import sympy

    F = g.fn(M + "Field")
    sm = [g.fn("tensormethod.sm." + n) for n in SM]
    ex = [F("φ", "00001", charges={"y": sympy.Rational(1, 2), "3b": 0}, latex="x"), F("ψ", "10100", charges={"y": sympy.Rational(-1, 3), "3b": 1}, latex="x"),
          F("η", "00110", charges={"y": 0, "3b": 0}, latex="x")]
    return sm[:2] + ex


def key(t):
    """A term up to conjugation, independent of the code's strings."""
    def one(f, conj):
        sm = f.label in SM
        d = f.dynkin
        if sm:
            return (f.label, bool(f.is_conj) != conj)
        y, b = f.charges["y"], f.charges["3b"]
        col = d[2:4]
        if conj:
            y, b, col = -y, -b, col[::-1]
        return ("S" if d[:2] == "00" else "F", col, d[4], str(y), str(b))

    a = tuple(sorted((str(one(f, False)) for f in t.fields)))
    b = tuple(sorted((str(one(f, True)) for f in t.fields)))
    return min(a, b)


@contract(P, covers=[K + "cons_term_prime_dict", K + "completion_characteristic_number", K + "clean_completions"], secs=60, runs=400)
def cleaned(g):
    """Two completions are the same for clean_completions exactly when they belong to one
    topology and have the same terms (with multiplicity, up to conjugating each term
    and the order of terms and fields); one of each is kept, in order of topology."""
    pool = completion_pool(g)
    n = g.pick("n", [1, 2, 3], quick=2 if g.symbolic else None)
    made = []
    lengths = [[1], [1, 1], [2], [1, 2], [1, 1, 1], [2, 2], [3, 1]]
    comps = []
    for k in range(n):
        terms = []
        if k and g.pick(f"copy{k}", [False, True]):
            # the first again, terms in another order, some conjugated
            for j, t in enumerate(reversed(comps[0].terms)):
                fs = list(reversed(t.fields))
                if g.pick(f"c{k}conj{j}", [False, True]):
                    fs = [f.conj for f in fs]
                terms.append(Term(fs))
        else:
            ls = g.pick(f"c{k}lens", lengths, quick=4 if g.symbolic else None)
            for j, m in enumerate(ls):
                fs = []
                for q in range(m):
                    f = pool[g.pick(f"c{k}t{j}f{q}", range(len(pool)), quick=(4 if q == 0 and j == 0 else 1) if g.symbolic else None)]
                    fs.append(f)
                terms.append(Term(fs))
        comps.append(Comp(terms, g.pick(f"c{k}topology", ["2s2f_1", "2s2f_2"]), k))
    got = g.fn(K + "clean_completions")(list(comps))
    same = lambda a, b: a.topology == b.topology and Counter(map(key, a.terms)) == Counter(map(key, b.terms))
    for c in comps:
        g.ensure("one of each kept", sum(1 for x in got if same(x, c)) == 1)
    g.ensure("nothing else", all(any(x is c for c in comps) for x in got))
    g.ensure("by topology", [x.topology for x in got] == sorted(x.topology for x in got))
    d = g.fn(K + "cons_term_prime_dict")(comps)
    num = g.fn(K + "completion_characteristic_number")
    for a in comps:
        for b in comps:
            g.ensure("numbers", (num(a, d) == num(b, d)) == (Counter(map(key, a.terms)) == Counter(map(key, b.terms))))


def catalogue(g):
    k = "c" + str(id(g.world))
    store = catalogue.__dict__
    if k not in store:
        eff = g.fn("completions.operators.EFF_OPERATORS")
        oc = g.fn(K + "operator_completions")
        store[k] = [list(oc(eff[n])) for n in ("1", "2", "3a", "3b", "4a", "8")]
    return store[k]


@contract(P, covers=[K + "clean_completions", K + "are_equivalent_completions", K + "compare_terms", K + "check_remapping_on_terms"], mode="conc", runs=40, gsecs=30)
def real(g):
    """Completions of operators of the catalogue: cleaning keeps one of each set of
    completions with the same terms; copies and relabelled copies are equivalent, in
    both directions, and completions with other field content are not."""
    cs = catalogue(g)[g.pick("op", range(6))]
    sel = [cs[g.int(f"k{j}", 0, 10**6) % len(cs)] for j in range(6)]
    got = g.fn(K + "clean_completions")(sel)
    same = lambda a, b: a.topology == b.topology and Counter(map(key, a.terms)) == Counter(map(key, b.terms))
    for c in sel:
        g.ensure("one of each kept", sum(1 for x in got if same(x, c)) == 1)
    g.ensure("idempotent", len(g.fn(K + "clean_completions")(got)) == len(got))
    eq = g.fn(K + "are_equivalent_completions")
    a, b = sel[0], sel[1]
    if len(set(a.exotic_info().values())) == len(a.exotics):
        g.ensure("reflexive", eq(a, a))
    g.ensure("symmetric", bool(eq(a, b)) == bool(eq(b, a)))
    if set(a.exotic_info().values()) != set(b.exotic_info().values()) or len(a.terms) != len(b.terms):
        g.ensure("different content", not eq(a, b))
    if eq(a, b):
        g.ensure("equivalent ones have the same terms", Counter(key(t) for t in a.terms) == Counter(key(t) for t in b.terms))


def relabelled(g, c, m):
    """The completion with its exotic fields renamed."""
    IF, FT = g.fn(M + "IndexedField"), g.fn("completions.core.FieldType")

    def lab(s):
        b = s.replace("†", "").replace("~", "")
        return s.replace(b, m.get(b, b))

    def one(t):
        if not isinstance(t, IF):
            return t
        if isinstance(t, FT):
            kw = {"is_unbarred": t.is_unbarred} if hasattr(t, "is_unbarred") else {}
            return type(t)(label=lab(t.label), indices=t.index_labels, charges=t.charges, latex=t.latex, is_conj=t.is_conj, symmetry=t.symmetry, comm=t.comm, **kw)
        return IF(**{**t._dict, "label": lab(t.label)})

    terms = [g.fn(M + "Operator")(*[one(x) for x in t.tensors]) for t in c.terms]
    return g.fn("completions.core.Completion")(operator=c.operator, partition=c.partition, graph=c.graph, exotics={one(e) for e in c.exotics}, terms=terms, topology=c.topology)


@contract(P, covers=[K + "are_equivalent_completions", K + "compare_terms", K + "check_remapping_on_terms", K + "relabel_term", K + "slow_remove_equivalent_completions", U + "remove_equivalent"], mode="conc", runs=25, gsecs=25)
def renamed(g):
    """A completion is equivalent to itself with its exotic fields renamed (exchanging
    names too), and the renaming is found; the slow removal keeps one of them."""
    eff = g.fn("completions.operators.EFF_OPERATORS")
    name = g.pick("op", ["2", "3a", "4a", "8", "11b"])
    store = renamed.__dict__.setdefault("made" + str(id(g.world)), {})
    if name not in store:
        store[name] = [c for c in itertools.islice(g.fn(K + "operator_completions")(eff[name]), 8) if len(set(c.exotic_info().values())) == len(c.exotics)]
    cs = store[name]
    c = cs[g.int("k", 0, 10**6) % len(cs)]
    names = sorted({e.label.replace("†", "").replace("~", "") for e in c.exotics})
    other = names + ["χ", "A"]
    to = []
    for k in range(len(names)):
        left = [x for x in other if x not in to]
        to.append(left[g.int(f"to{k}", 0, 10**6) % len(left)])
    m = dict(zip(names, to))
    d = relabelled(g, c, m)
    eq = g.fn(K + "are_equivalent_completions")
    g.ensure("equivalent", bool(eq(c, d)) and bool(eq(d, c)))
    got = g.fn(K + "compare_terms")(c, d)
    strip = lambda s: s.replace("†", "").replace("~", "")
    g.ensure("the renaming", {strip(a): strip(b) for a, b in got.items()} == m)
    two = [c, d]
    out = g.fn(K + "slow_remove_equivalent_completions")(two)
    g.ensure("one kept", len(two if out is None else out) == 1)
