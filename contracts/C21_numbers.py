"""The model database: numbers, queries, duplicates, forcing and reading."""

from collections import Counter

from vx.harness import contract

LEVEL = "proof"
P = "C21"
K = "database.database."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "database.utils", "database.closures", "database.export", "database.database")
ASSUMES = ("unique factorisation into primes; sympy's prime(n)", "databases of up to two operators and three models over six fields and six terms (proof, complete enumeration), larger ones at random")

FIELDS = ["S,10,0,-1/3,1", "S,01,0,1/3,-1", "F,00,2,0,0", "F,10,1,5/6,-2", "S,00,2,1,0", "S,00,2,-1,0"]
TERMS = [("L", "S,10,0,-1/3,1", "Q"), ("L.conj", "Q.conj", "S,01,0,1/3,-1"), ("H", "L", "F,00,2,0,0"), ("F,00,2,0,0", "H", "L"), ("db", "db.conj"), ("db.conj", "db")]


def conj(x):
    """Independent of the code: conjugate text of one field."""
    if x.endswith(".conj"):
        return x[:-5]
    if "," not in x:
        return x + ".conj"
    l, c, i, y, b = x.split(",")
    neg = lambda s: s if s == "0" else s[1:] if s[0] == "-" else "-" + s
    return ",".join([l, c[::-1], i, neg(y), neg(b)])


def cls(x):
    return min(x, conj(x))


def tcls(t):
    return min(tuple(sorted(t)), tuple(sorted(map(conj, t))))


def lazy(g, name, qns, terms, op="1"):
    return g.fn(K + "LazyCompletion")({"operator_name": op, "quantum_numbers": list(qns), "terms": list(terms), "name": name}, f"('forced', {name!r})")


def some(g, name, pool, hi, few=None):
    opts = [s for s in range(2 ** len(pool)) if bin(s).count("1") <= hi]
    k = g.pick(name, opts, quick=few)
    return [pool[j] for j in range(len(pool)) if k >> j & 1]


def models(g, n, hi=2, name="m"):
    out = []
    for k in range(n):
        q = some(g, f"{name}{k}q", FIELDS, hi)
        t = some(g, f"{name}{k}t", TERMS, 1 if g.symbolic else 3, few=4 if g.symbolic else None)
        out.append(lazy(g, f"{name}{k}", q, t, "12"[k % 2]))
    return out


def database(g, ms, **kw):
    data = {}
    for m in ms:
        data.setdefault(m.operator_name, []).append(m)
    return g.fn(K + "ModelDatabase")("", data=data, **kw), data


@contract(P, covers=[K + "ModelDatabase.__init__", K + "ModelDatabase.democratic_model_number", K + "ModelDatabase.stringent_model_number", K + "ModelDatabase.model_number", K + "LazyCompletion.quantum_numbers"], secs=120, runs=400)
def numbers(g):
    """Two models have the same democratic number exactly when their fields agree up to
    conjugating each, the same stringent number exactly when their terms do, and one
    number divides another exactly when the content is contained."""
    ms = models(g, 2 if g.symbolic else 3)
    phil = g.pick("philosophy", ["democratic", "stringent"])
    db, _ = database(g, ms, philosophy=phil)
    content = {}
    for m in ms:
        d, s = Counter(map(cls, set(m.head["quantum_numbers"]))), Counter(map(tcls, m.head["terms"]))
        content[m.head["name"]] = d if phil == "democratic" else s
    for m in ms:
        for o in ms:
            a, b = content[m.head["name"]], content[o.head["name"]]
            x, y = db.model_number(m), db.model_number(o)
            g.ensure("same number = same content", (x == y) == (a == b))
            g.ensure("divides = contained", (y % x == 0) == all(b[k] >= v for k, v in a.items()))
        g.ensure("dispatch", db.model_number(m) == (db.democratic_model_number(m) if phil == "democratic" else db.stringent_model_number(m)))


@contract(P, covers=[K + "ModelDatabase.__init__"], secs=60, runs=200)
def dictionaries(g):
    """A field (term) and its conjugate share one prime and no others do; the inverse
    dictionary leads back to the field or its conjugate, the one the models have."""
    import sympy

    ms = models(g, 2, 1 if g.symbolic else 2)
    db, _ = database(g, ms)
    for d, inv, c, want in ((db.exotic_prime_dict, db.inv_exotic_prime_dict, cls, {x for m in ms for x in m.head["quantum_numbers"]}),
                            (db.term_prime_dict, db.inv_term_prime_dict, tcls, {tuple(sorted(t)) for m in ms for t in m.head["terms"]})):
        g.ensure("all there", want <= set(d))
        g.ensure("primes", all(sympy.isprime(int(v)) for v in d.values()))
        for a in d:
            for b in d:
                g.ensure("shared with the conjugate only", (d[a] == d[b]) == (c(a) == c(b)))
            g.ensure("inverse", c(inv[d[a]]) == c(a))
            g.ensure("inverse occurs in a model", inv[d[a]] in want)
    g.ensure("terms sorted", all(t == tuple(sorted(t)) for m in ms for t in m.head["terms"]))


@contract(P, covers=[K + "ModelDatabase.remove_equivalent_models", K + "ModelDatabase.democratic_remove_equivalent_models", K + "ModelDatabase.stringent_remove_equivalent_models"], secs=120, runs=300)
def duplicates(g):
    """Removing equivalent models keeps, for each operator, the first model of each
    content, in order."""
    n = 3 if g.symbolic else 5
    pool = FIELDS[:4]
    phil = g.pick("philosophy", ["democratic", "stringent"])
    ms = []
    for k in range(n):
        if phil == "democratic":
            q, t = some(g, f"q{k}", pool, 2, few=6 if g.symbolic else None), []
        else:
            q, t = [], some(g, f"t{k}", TERMS[:4], 2, few=6 if g.symbolic else None)
        ms.append(lazy(g, f"m{k}", q, t, "1" if k < n - 1 or not g.pick("other", [0, 1]) else "2"))
    db, data = database(g, ms, philosophy=phil)
    key = lambda m: Counter(map(cls, m.quantum_numbers)) if phil == "democratic" else Counter(map(tcls, m.head["terms"]))
    want = {}
    for m in ms:
        l = want.setdefault(m.operator_name, [])
        if all(key(o) != key(m) for o in l):
            l.append(m)
    db.remove_equivalent_models()
    g.ensure("first of each", list(db.data) == list(want) and all(len(db.data[k]) == len(v) and all(a is b for a, b in zip(db.data[k], v)) for k, v in want.items()))


@contract(P, covers=[K + "ModelDatabase.query", K + "ModelDatabase.filter_by_query", K + "ModelDatabase.no_seesaws"], secs=60, runs=300)
def queries(g):
    """A query gives, for each operator, exactly the models it holds for, in order, and
    changes nothing; filtering by it keeps exactly those."""
    ms = models(g, 1 if g.symbolic else 4)
    db, data = database(g, ms)
    keep = {m.head["name"]: g.bool("keep" + m.head["name"]) for m in ms}
    f = lambda m: keep[m.head["name"]]
    before = {k: list(v) for k, v in data.items()}
    r = db.query(f)
    want = {k: [m for m in v if bool(keep[m.head["name"]])] for k, v in before.items()}
    same = lambda x, y: list(x) == list(y) and all(len(x[k]) == len(y[k]) and all(a is b for a, b in zip(x[k], y[k])) for k in y)
    g.ensure("exactly those", same(r, want))
    g.ensure("nothing changed", same(db.data, before))
    db.filter_by_query(f)
    g.ensure("filtered", same(db.data, want))
    see = {"F,00,2,0,0", "F,00,0,0,0", "S,00,2,1,0"}
    g.ensure("no seesaws", all(g.fn(K + "ModelDatabase").no_seesaws(m) == (not see & set(m.head["quantum_numbers"])) for m in ms))


# databases of any size ------------------------------------------------------------


class M:
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)


class Lookup:
    """A dictionary given by its contract: the k-th key has the value of(k)."""

    def __init__(self, of):
        self.of = of

    def __getitem__(self, x):
        return self.of(x.k)


def empty(g, **kw):
    return g.fn(K + "ModelDatabase")("", data={}, **kw)


@contract(P, covers=[K + "ModelDatabase.query", K + "ModelDatabase.filter_by_query"], secs=40, runs=100)
def queries_any_size(g):
    """The same for any number of models."""
    keep = g.ufun("keep", "bool")
    v, w = (g.seq(n, lambda k: M(k)) for n in "vw")
    db = empty(g)
    db.data = {"1": v, "2": w}
    f = lambda m: keep(m.k)
    r = db.query(f)
    g.ensure("operators", list(r) == ["1", "2"])
    g.each("exactly those", r["1"], v, p=f)
    g.each("exactly those", r["2"], w, p=f)
    g.ensure("nothing changed", db.data["1"] is v and db.data["2"] is w)
    db.filter_by_query(f)
    g.each("filtered", db.data["1"], v, p=f)


@contract(P, covers=[K + "ModelDatabase.democratic_model_number", K + "ModelDatabase.stringent_model_number"], secs=40, runs=100)
def products_any_size(g):
    """A model's number is the product of the primes of all its fields (terms)."""
    prime = g.ufun("prime", "int", lo=2)
    xs = g.seq("xs", lambda k: M(k))
    db = empty(g)
    db.exotic_prime_dict = db.term_prime_dict = Lookup(prime)
    m = M(0, quantum_numbers=xs, head={"terms": xs})
    prod = g.fold("product", 1, lambda acc, x: acc * prime(x.k), xs)
    if g.pick("which", [0, 1]):
        g.loop(":democratic_model_number", prod)
        got = db.democratic_model_number(m)
    else:
        g.loop(":stringent_model_number", prod)
        got = db.stringent_model_number(m)
    g.ensure("product", got == prod.total())


@contract(P, covers=[K + "LazyCompletion.contains_field", K + "LazyCompletion.contains_interaction", K + "match", K + "matches_in", K + "LazyCompletion.__init__"], secs=60, runs=400)
def contains(g):
    """A model contains a field when the pattern matches one from its beginning, and an
    interaction when one of its terms has a match for every pattern."""
    import re

    m = models(g, 1, 3)[0]
    pats = ["S,10", "S,..,.,", "F,00,2,0,0", "L$", "Q", ".*conj", "db", "x"]
    p = g.pick("p", pats)
    g.ensure("field", bool(m.contains_field(p)) == any(re.match(p, q) for q in m.head["quantum_numbers"]))
    many = g.pick("many", [1, 2, 0, 3], quick=3)
    ps = [p, *[g.pick(f"p{i}", pats) for i in range(2, many + 1)]][:many]
    g.ensure("interaction", bool(m.contains_interaction(ps)) == any(all(any(re.match(x, y) for y in t) for x in ps) for t in m.head["terms"]))


@contract(P, covers=[K + "ModelDatabase.force"], secs=40, runs=100)
def forced_any_size(g):
    """Any number of models are each forced, in order, and not again when told again."""
    made = g.ufun("made", "int")

    class Lazy:
        def __init__(self, k):
            self.k = k

        def force(self):
            return made(self.k)

    v, w = (g.seq(n, Lazy) for n in "vw")
    db = empty(g)
    db.data = {"1": v, "2": w}
    for _ in range(2):
        db.force()
        g.ensure("operators", list(db.data) == ["1", "2"])
        g.each("all forced", db.data["1"], v, f=lambda m: made(m.k))
        g.each("all forced", db.data["2"], w, f=lambda m: made(m.k))


@contract(P, covers=[K + "ModelDatabase.force", K + "LazyCompletion.force"], secs=60, runs=200)
def forced(g):
    """Forcing turns every model of every operator into its completion, once."""
    ms = models(g, g.pick("n", [1, 2, 3, 4, 5], quick=1))
    db, data = database(g, ms)
    want = {k: [("forced", m.head["name"]) for m in v] for k, v in data.items()}
    db.force()
    g.ensure("all forced", db.data == want)
    db.force()
    g.ensure("once", db.data == want)


@contract(P, covers=[K + "read_completions", K + "ModelDatabase.__init__"], mode="conc", runs=60)
def read(g):
    """A database read from files has every model of every file, in order, under its
    operator (each operator in one file), and can be told to filter."""
    import os
    import tempfile

    ms = models(g, g.pick("n", [0, 1, 3, 5])) * g.pick("times", [1, 1, 1, 90])
    with tempfile.TemporaryDirectory() as d:
        for op in {m.operator_name for m in ms}:
            with open(os.path.join(d, op + ".dat"), "w") as f:
                for m in ms:
                    if m.operator_name == op:
                        f.write(f"LazyCompletion(head={m.head!r}, tail={m.tail!r})\n")
            with open(os.path.join(d, op + ".dat")) as f:
                pass
            rd = g.fn(K + "read_completions")(os.path.join(d, op + ".dat"))
            g.ensure("one file", [x.head for x in rd[op]] == [m.head for m in ms if m.operator_name == op] and len(rd) == 1)
        with open(os.path.join(d, "other.txt"), "w") as f:
            f.write("not a completion")
        db = g.fn(K + "ModelDatabase")(d, criterion="dimension")
    srt = lambda h: {**h, "terms": [tuple(sorted(t)) for t in h["terms"]]}
    g.ensure("operators", set(db.data) == {m.operator_name for m in ms})
    g.ensure("all there", all([x.head for x in v] == [srt(m.head) for m in ms if m.operator_name == k] for k, v in db.data.items()))
    g.ensure("tails", all([x.tail for x in v] == [m.tail for m in ms if m.operator_name == k] for k, v in db.data.items()))
    db.filter()
