"""Lagrangians and their U(1) symmetries."""

from fractions import Fraction

import random

from contracts import numeric
from contracts.groups import products
from contracts.lib import multiset_eq
from vx.harness import contract

LEVEL = "proof"
P = "C09"
L = "tensormethod.lagrangian."
M = "tensormethod.core."
C = "completions.core."
SM = ("H", "Q", "ub", "db", "L", "eb")
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "tensormethod.lagrangian", "completions.completions", "completions.operators")
ASSUMES = (
    "exotic fields with vanishing hypercharge are in self-conjugate representations (as for all exotics generated from Standard Model operators)",
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py",
    "sympy's Matrix.nullspace (checked on the bounded runs)",
)
ONE = {"H": "i0", "Q": "u0 c0 i0", "ub": "u0 -c0", "db": "u0 -c0", "L": "u0 i0", "eb": "u0"}
RAY = {"H": (0, 0, 0, 0, 1), "Q": (1, 0, 1, 0, 1), "ub": (1, 0, 0, 1, 0), "db": (1, 0, 0, 1, 0), "L": (1, 0, 0, 0, 1), "eb": (1, 0, 0, 0, 0)}
YUK = [{"H": 1, "Q": 1, "ub": 1}, {"H": -1, "Q": 1, "db": 1}, {"H": -1, "L": 1, "eb": 1}]


def index(n, text):
    """The same indices, numbered from 10 n."""
    return " ".join(t[:-1] + str(10 * n + int(t[-1])) for t in text.split())


def flip(text):
    return " ".join({"u": "d" + t[1:], "d": "u" + t[1:], "c": "-" + t, "-": t[1:], "i": t}[t[0]] for t in text.split())


def sm(g, n, name, conj):
    f = g.fn("tensormethod.sm." + name)
    return (f.conj)(index(n, flip(ONE[name]))) if conj else f(index(n, ONE[name]))


def term(g, fs):
    """The product of indexed fields, as an Operator."""
    norm = g.fn(M + "normalise_operator_input")
    op = g.fn(M + "Operator")(*norm(*fs)) if len(fs) > 1 else g.fn(M + "Operator")(fs[0])
    return op


def rank(rows):
    rows = [[Fraction(int(x)) for x in r] for r in rows]
    r = 0
    n = len(rows[0]) if rows else 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, len(rows)):
            if rows[i][c]:
                k = rows[i][c] / rows[r][c]
                rows[i] = [a - k * b for a, b in zip(rows[i], rows[r])]
        r += 1
    return r


EX = [("S", "i0", "ComplexScalar"), ("φ", "", "ComplexScalar"), ("ω", "c0", "ComplexScalar"), ("ψ", "u0 i0", "VectorLikeDiracFermion"),
      ("χ", "u0 -c0", "VectorLikeDiracFermion"), ("N", "u0", "MajoranaFermion"), ("Z", "i0 i1", "RealScalar"), ("Z", "i0 i1", "ComplexScalar")]


def exotic(g, name, n, kinds=EX, free=True):
    """An exotic field with free hypercharge."""
    lab, ind, cls = kinds[g.pick(name, range(len(kinds)))]
    ch = {"y": 0, "3b": 0}
    if cls in ("ComplexScalar", "VectorLikeDiracFermion"):
        ch = {"y": g.real(name + "_y"), "3b": g.real(name + "_b")}
        g.assume(g.neg(ch["y"] == 0))
    return g.fn(C + cls)(lab + str(n), index(n, ind), charges=ch, latex="x")


@contract(P, covers=[L + "term_to_row", M + "Operator.fields"], world="ghost", hash=True, secs=60)
def row(g):
    """The row of a term counts each Standard Model field and each exotic of the term
    once per occurrence, conjugates negatively, whatever the order and charges."""
    x, y = exotic(g, "x", 5, EX[:5] if g.thorough else EX[2:4]), exotic(g, "y", 6, EX[:3] if g.thorough else EX[:1])
    exotics = [x.field, y.field]
    idx = {**{f.conj: k for k, f in enumerate(exotics)}, **{f: k for k, f in enumerate(exotics)}}
    a, b = g.pick("a", SM), g.pick("b", SM)
    shape = g.pick("shape", ["ax", "aax", "a†bx", "xx†", "xy", "abxy", "xxy†", "a†a†x†", "aa†y", "bxxx", "ay†bx"])
    fs, want = [], {}
    k = 0
    n = 0
    while k < len(shape):
        c = shape[k]
        conj = shape[k + 1 : k + 2] == "†"
        k += 2 if conj else 1
        n += 1
        if c in "ab":
            name = a if c == "a" else b
            fs.append(sm(g, n, name, conj))
            key = SM.index(name)
        else:
            z = x if c == "x" else y
            z = z.substituted_indices(*[(i, ("" if i.is_up else "-") + i.name[0] + "9" + str(n) + str(q)) for q, i in enumerate(z.indices)])
            fs.append(z.conj if conj else z)
            key = 6 + (c == "y")
        want[key] = want.get(key, 0) + (-1 if conj else 1)
    got = g.fn(L + "term_to_row")(term(g, fs), exotics, idx)
    g.ensure("row", [int(v) for v in got] == [want.get(k, 0) for k in range(8)])


@contract(P, covers=[L + "contains"], world="ghost", secs=60)
def contained(g):
    """A term contains a list of fields exactly when one of them, or its conjugate, is
    among its fields."""
    x, y, z = exotic(g, "x", 5, EX[2:4]), exotic(g, "y", 6, EX[:2]), exotic(g, "z", 7, EX[:1])
    a = g.pick("a", ["H", "Q", "ub"])
    fs = [sm(g, 1, a, g.bool("ac"))]
    inx, iny = g.bool("inx"), g.bool("iny")
    if inx:
        fs.append(x.conj if g.bool("xc") else x)
    if iny:
        fs.append(y.conj if g.bool("yc") else y)
    fs.append(sm(g, 2, "L", False))
    t = term(g, fs)
    f = g.fn(L + "contains")
    for ask, want in (([x.field], inx), ([y.field], iny), ([z.field], False), ([x.field, y.field], bool(inx) or bool(iny)),
                      ([z.field, x.conj.field], inx), ([], False), ([z.field, y.field], iny)):
        g.ensure("contains", bool(f(t, ask)) == bool(want))


@contract(P, covers=[L + "clean_fields", L + "Lagrangian.__init__", L + "Lagrangian.terms"], world="ghost", hash=True, secs=60)
def fields_and_terms(g):
    """The fields of a Lagrangian are its exotics and the Dirac partners of charged
    fermions, each once; its terms are the interactions followed by one mass term
    per field."""
    n = g.pick("n", [1, 2])
    xs = [exotic(g, f"x{k}", 5 + k, EX if n == 1 or g.thorough else EX[3 * k : 3 * k + 4]) for k in range(n)]
    given = list(xs)
    if g.bool("partner given"):
        given += [x.dirac_partner() for x in xs if type(x).__name__ == "VectorLikeDiracFermion"]
    twice = g.pick("twice", ["no", "same", "other indices"] if n == 1 or not g.symbolic else ["no", "same"])
    if twice == "same":
        given.append(xs[0])
    if twice == "other indices":
        x = xs[0]
        given.append(type(x)(x.label, " ".join(str(i)[:-1] + str(9 - int(str(i)[-1])) for i in x.indices), charges=dict(x.charges), latex="x"))
    inter = [term(g, [x, sm(g, 1, "H", False)]) for x in xs]
    lag = g.fn(L + "Lagrangian")(given, list(inter))
    want = list(xs) + [x.dirac_partner() for x in xs if type(x).__name__ == "VectorLikeDiracFermion"]
    g.ensure("number", len(lag.fields) == len(want))
    for w in want:
        g.ensure("has it once", g.any(f.field == w.field for f in lag.fields))
    t = lag.terms
    g.ensure("terms", len(t) == len(inter) + len(want) and all(p is q for p, q in zip(t, inter)))
    for w in want:
        part = w.dirac_partner() if type(w).__name__ == "VectorLikeDiracFermion" else w.conj if type(w).__name__ == "ComplexScalar" else w
        g.ensure("a mass term for each", g.any(
            g.all([len(fs) == 2, g.any(f.label == w.label for f in fs), g.any(f.label == part.label for f in fs)])
            for fs in ([f for f in q.tensors if type(f).__name__ not in ("Tensor", "TensMul")] for q in t[len(inter):])))


def expected(g, lag):
    """Rows over (H .. eb, fields): Yukawas and the terms that hold an exotic."""
    names = list(SM)
    cols = [(g.fn("tensormethod.sm." + n)) for n in names] + [f.field for f in lag.fields]

    def col(f):
        c = f.conj
        for k, q in enumerate(cols):
            if q == f:
                return k, 1
        for k, q in enumerate(cols):
            if q == c:
                return k, -1
        raise AssertionError(f"unknown field {f}")

    def count(f):
        # the sign is by the flag of the field
        k, s = col(f)
        return k, -1 if f.is_conj else 1

    rows = []
    for y in YUK:
        r = [0] * len(cols)
        for n, v in y.items():
            r[names.index(n)] = v
        rows.append(r)
    for t in lag.terms:
        r, ex = [0] * len(cols), False
        for f in t.fields:
            k, s = count(f)
            r[k] += s
            ex = ex or k >= 6
        if ex:
            rows.append(r)
    return rows, len(cols)


@contract(P, covers=[L + "Lagrangian.u1_symmetries", L + "Lagrangian.num_u1_symmetries", L + "term_to_row"], mode="conc", runs=120, gsecs=20)
def symmetries(g):
    """The U(1) symmetries of a Lagrangian are the charge assignments under which the
    Yukawa couplings, the mass terms and every interaction with an exotic are
    neutral: each found one is, they are independent, and there are as many as the
    equations leave."""
    n = g.pick("n", [1, 2, 2, 3])
    xs = [exotic(g, f"x{k}", 5 + k) for k in range(n)]
    inter = []
    for t in range(g.pick("terms", [0, 1, 2, 3])):
        fs = []
        for q in range(g.pick(f"t{t}_n", [1, 2])):
            fs.append(sm(g, q + 1, g.pick(f"t{t}_{q}", SM), g.bool(f"t{t}_{q}_conj")))
        for q in range(g.pick(f"t{t}_m", [1, 2])):
            x = xs[g.pick(f"t{t}_x{q}", range(n))]
            if type(x).__name__ == "VectorLikeDiracFermion" and g.bool(f"t{t}_x{q}_p"):
                x = x.dirac_partner()
            x = x.substituted_indices(*[(i, ("" if i.is_up else "-") + i.name[0] + "9" + str(q) + str(w)) for w, i in enumerate(x.indices)])
            fs.append(x.conj if g.bool(f"t{t}_x{q}_conj") else x)
        inter.append(term(g, fs))
    for t in range(g.pick("sm terms", [0, 1])):
        inter.append(term(g, [sm(g, 1, "L", False), sm(g, 2, "H", False)]))
    lag = g.fn(L + "Lagrangian")(set(xs), inter)
    check_symmetries(g, lag)


def check_symmetries(g, lag):
    rows, n = expected(g, lag)
    vs = [[Fraction(int(x.p), int(x.q)) for x in v] for v in lag.u1_symmetries()]
    g.ensure("neutral", all(len(v) == n and all(sum(a * b for a, b in zip(r, v)) == 0 for r in rows) for v in vs))
    den = [[x * 5040 for x in v] for v in vs]
    g.ensure("independent", rank(den) == len(vs) if vs else True)
    g.ensure("all of them", len(vs) == n - rank(rows))
    g.ensure("number", lag.num_u1_symmetries() == len(vs))


def pool(g):
    f = pool.__dict__.setdefault("cache", {})
    k = id(g.world)
    if k not in f:
        ops = g.fn("completions.operators.EFF_OPERATORS")
        oc = g.fn("completions.completions.operator_completions")
        f[k] = [(n, list(oc(ops[n]))) for n in ("1", "2", "3a", "3b", "4a", "8")]
    return f[k]


@contract(P, covers=[L + "Lagrangian.u1_symmetries", C + "Completion.lagrangian"], mode="conc", runs=60, gsecs=25)
def symmetries_of_completions(g):
    """The same for the Lagrangians of completions, which also keep hypercharge and
    baryon number (with the signs of their fields)."""
    n, cs = g.pick("op", pool(g))
    c = cs[g.int("k", 0, 10**6) % len(cs)]
    lag = c.lagrangian
    check_symmetries(g, lag)
    # (signs: charges of the six fields and of the exotics)
    rows, n = expected(g, lag)
    cols = [g.fn("tensormethod.sm." + k) for k in SM] + [f.field for f in lag.fields]
    for q in ("y", "3b"):
        v = [f.charges[q] * (-1 if f.is_conj else 1) for f in cols]
        if q == "y":
            g.ensure("hypercharge", all(sum(a * b for a, b in zip(r, v)) == 0 for r in rows))


@contract(P, covers=[L + "generate_uv_terms", L + "npoint_terms", L + "Lagrangian.generate_full"], mode="conc", exhaustive=True, gsecs=150)
def full(g):
    """The generated terms are renormalisable, neutral, hold an exotic, have no free
    index, differ from each other, and there is one for every choice of fields
    (without repetition) whose product holds a singlet."""
    lab, ind, y, dk = g.pick("exotic", [("S", "-c0", (1, 3), (0, 0, 0, 1, 0)), ("T", "i0 i1", (1, 1), (0, 0, 0, 0, 2)), ("h", "", (1, 1), (0, 0, 0, 0, 0)), ("N", "u0", (0, 1), (1, 0, 0, 0, 0))][: 4 if g.thorough else 3])
    import sympy
    from itertools import combinations

    f = g.fn(M + "Field")(lab, "".join(map(str, dk)), charges={"y": sympy.Rational(*y), "3b": 0}, latex="x", comm=g.fn(M + ("FERMI" if dk[0] else "BOSE")))
    x = g.fn(C + "cons_completion_field")(f(ind))
    terms = g.fn(L + "generate_uv_terms")([x])
    fs = [g.fn("tensormethod.sm." + n) for n in SM] + [x.field]
    fs += [q.conj for q in fs]
    seen = []
    for t in terms:
        g.ensure("neutral", sum(q.y for q in t.fields) == 0)
        g.ensure("renormalisable", sum(2 if 2 * q.mass_dim == 2 else 3 for q in t.fields) <= 8)
        g.ensure("with exotic", any(q in (fs[6], fs[13]) for q in t.fields))
        g.ensure("no free index", all(i.index_type == "Generation" for i in t.free_indices))
        g.ensure("not zero", t.safe_simplify() != 0)
        seen.append(t.fields)
    lag = g.fn(L + "Lagrangian")({x}, [])
    if lab == "h":
        g.ensure("lepton number", lag.generate_full().num_u1_symmetries() == 3)
    simple = [t.nocoeff.safe_simplify() for t in terms]
    g.ensure("different", all(a != b for k, a in enumerate(simple) for b in simple[:k]))
    ray = [RAY[n] for n in SM] + [dk]
    ray += [(b, a, d, c, i) for a, b, c, d, i in ray]
    keys = [sorted(str(q.label_with_dagger) for q in s) for s in seen]
    for n in (3, 4):
        for ks in combinations(range(14), n):
            if not {6, 13} & set(ks) or sum(fs[k].y for k in ks) != 0 or sum(3 if sum(ray[k][:2]) else 2 for k in ks) > 8:
                continue
            want = products([ray[k] for k in ks]).get((0, 0, 0, 0, 0))
            if want:
                label = sorted(str(fs[k].label_with_dagger) for k in ks)
                g.ensure("complete", label in keys)
                of = [t for t, k in zip(terms, keys) if k == label]
                g.ensure("every contraction", numeric.span_rank(of, random.Random(3)) == want)


# which terms are kept, on stand-in terms --------------------------------------------


class Form:
    """A canonical form: its number, and whether it vanishes."""

    def __init__(self, n, zero):
        self.n, self.zero = n, zero

    def _sympy_(self):
        raise TypeError("'Form' is a stand-in")

    def __bool__(self):
        return not bool(self.zero)

    def __eq__(self, o):
        if isinstance(o, Form):
            return self.n == o.n
        return self.zero if o == 0 else False

    def __ne__(self, o):
        return not bool(self == o)

    def __hash__(self):
        return 1


class Fld:
    """A field, and its conjugate."""

    def __init__(self, name, conj=None):
        self.name = name
        self.conj = conj or Fld(name + "†", self)
        self.field = self

    def __repr__(self):
        return self.name


class Term:
    def __init__(self, g, name, fields, mass_dim, form):
        self.name, self.fields, self.mass_dim, self.form = name, fields, mass_dim, form

    @property
    def nocoeff(self):
        return self

    def simplify(self, *a, **k):
        return self.form

    safe_simplify = simplify


@contract(P, covers=[L + "generate_uv_terms"], secs=90, runs=400)
def kept(g):
    """Of the three- and four-point terms of the Standard Model fields and the exotics,
    generate_uv_terms keeps, in order, the first of each canonical form among those of
    mass dimension at most four that do not vanish and contain an exotic."""
    x, h = Fld("x"), Fld("h")
    asked = []
    count = {3: g.pick("cubic", [0, 1, 2]), 4: g.pick("quartic", [0, 1] if not g.thorough else [0, 1, 2])}
    made = {3: [], 4: []}
    dims, zeros, exs, nums = [], [], [], []
    for n in (3, 4):
        for k in range(count[n]):
            name = f"t{n}{k}"
            num = g.int(name + "_form", 0, 3)
            d, z, e = g.int(name + "_2dim", 4, 14), g.bool(name + "_zero"), g.pick(name + "_ex", ["x", "x†", ""])
            # terms of one form have the same fields
            for j in range(len(nums)):
                same = bool(nums[j] == num)
                g.assume(not same or (bool(dims[j] == d) and bool(zeros[j]) == bool(z) and exs[j] == e))
            fs = [h, {"x": x, "x†": x.conj, "": h.conj}[e]]
            made[n].append(Term(g, name, fs, d / 2, Form(num, z)))
            nums.append(num), dims.append(d), zeros.append(z), exs.append(e)

    def npoint(n, fields, nf=3, ignore=[]):
        asked.append((n, list(fields), list(ignore)))
        return list(made[n])

    g.callee(L + "npoint_terms", npoint)
    out = g.fn(L + "generate_uv_terms")([x] if g.bool("list") else {x})
    mod = g.mod("tensormethod.lagrangian")
    sm = [vars(mod)[n] for n in SM]
    g.ensure("three and four points", sorted(a[0] for a in asked) == [3, 4])
    for n, fields, ignore in asked:
        g.ensure("of all fields", len(fields) == 7 and all(sum(f is q for f in fields) == 1 for q in sm + [x]))
        g.ensure("every structure contracted", ignore == [])
    want, seen = [], []
    for t, d, e in zip(made[3] + made[4], dims, exs):
        if bool(d <= 8) and e and not bool(t.form.zero) and not any(bool(t.form.n == s) for s in seen):
            want.append(t)
            seen.append(t.form.n)
    g.ensure("kept", [t.name for t in out] == [t.name for t in want])


@contract(P, covers=[L + "npoint_terms"], runs=200)
def points(g):
    """The n-point terms are the invariants of every choice, with repetition, of n of the
    fields and their conjugates."""
    from itertools import combinations_with_replacement as cwr

    n, m = g.pick("n", [1, 2, 3, 4]), g.pick("fields", [0, 1, 2, 3])
    ignore = g.pick("ignore", [None, ["u", "d"]])
    fs = [Fld("abc"[k]) for k in range(m)]

    def un(*combo, ignore=[]):
        key = (tuple(sorted(f.name for f in combo)), tuple(ignore))
        return [key + (k,) for k in range(len(key[0][0]))]

    g.callee(L + "unsimplified_invariants", un)
    kw = {} if ignore is None else {"ignore": ignore}
    out = g.fn(L + "npoint_terms")(n, list(fs), **kw)
    want = [t for c in cwr(fs + [f.conj for f in fs], n) for t in un(*c, **kw)]
    g.ensure("all of them", sorted(out) == sorted(want))


@contract(P, covers=[L + "Lagrangian.__init__", L + "Lagrangian.terms", L + "Lagrangian.u1_symmetries", L + "Lagrangian.num_u1_symmetries", L + "Lagrangian.generate_full", C + "Completion.lagrangian"], secs=60)
def collected(g):
    """Whatever the fields and terms are: the terms are those of the interaction and one
    mass term for each field, the symmetries are the kernel of the rows of all terms with
    an exotic and of the three Yukawa terms, which leave the exotics out; the full
    Lagrangian has every term of its fields."""

    class Fl:
        def __init__(self, k, bar=False):
            self.k, self.bar = k, bar

        @property
        def conj(self):
            return Fl(self.k, not self.bar)

        def __eq__(self, other):
            return isinstance(other, Fl) and (self.k, self.bar) == (other.k, other.bar)

        def __hash__(self):
            return hash((self.k, self.bar))

    class X:
        def __init__(self, k):
            self.k, self.field, self.mass_term = k, Fl(k), ("mass", k)

    n, m = g.pick("fields", [0, 1, 2, 3]), g.pick("terms", [0, 1, 2])
    xs = [X(k) for k in range(n)]
    ts = [("term", k) for k in range(m)]
    has = {t: g.bool(f"exotic {t[0]} {t[1]}") for t in ts + [x.mass_term for x in xs]}
    row = lambda t: [k + 10 * (t[0] == "mass") for k in range(6 + n)] + [t[1]]
    seen = []

    class Mat:
        def __init__(self, rows):
            seen.append([list(r) for r in rows])

        def nullspace(self):
            return ["one", "two", "three"]

    g.callee(L + "clean_fields", lambda exotics: list(xs))
    g.callee(L + "contains", lambda term, fields: has[term])
    g.callee(L + "term_to_row", lambda term, exotics, exotic_indices: row(term))
    g.callee(L + "generate_uv_terms", lambda fields: [("uv", x.k) for x in fields])
    g.callee(L + "Matrix", Mat)
    comp = g.fn(C + "Completion")(operator="o", partition="p", graph="g", exotics="exotics", terms=list(ts))
    lag = comp.lagrangian if g.pick("of a completion", [0, 1]) else g.fn(L + "Lagrangian")("exotics", list(ts))
    mass = [x.mass_term for x in xs]
    g.ensure("terms", multiset_eq(list(lag.terms), ts + mass))
    g.ensure("kernel", list(lag.u1_symmetries()) == ["one", "two", "three"] and lag.num_u1_symmetries() == 3)
    want = [row(t) for t in ts + mass if bool(has[t])]
    want += [[1, 1, 1, 0, 0, 0] + [0] * n, [-1, 1, 0, 1, 0, 0] + [0] * n, [-1, 0, 0, 0, 1, 1] + [0] * n]
    g.ensure("rows", bool(seen) and all(multiset_eq(s, want) for s in seen))
    full = lag.generate_full()
    g.ensure("full", full.exotics == "exotics" and all(("uv", x.k) in full.terms and x.mass_term in full.terms for x in xs) and all(t in mass or t in [("uv", x.k) for x in xs] for t in full.terms))
