"""Collecting completions into models and filtering models against a sieve."""

from collections import Counter

from vx.harness import contract

LEVEL = "proof"
P = "C17"
K = "completions.completions."
U = "completions.utils."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "completions.operators", "completions.utils")
ASSUMES = ("unique factorisation into primes; sympy's prime(n)", "models of up to three fields out of four (five thorough), sieves of up to two models")

FIELDS = [("S", 0, 0, 1, ("3b", 0), ("y", 1)), ("F", 1, 0, 0, ("3b", 1), ("y", 2)), ("S", 1, 1, 0, ("3b", 0), ("y", 0)), ("F", 0, 0, 2, ("3b", 0), ("y", 0)), ("S", 2, 0, 0, ("3b", 2), ("y", 1))]


def model(g, name, n=4, hi=3):
    """A sorted tuple of different fields."""
    k = g.pick(name, [s for s in range(2 ** n) if bin(s).count("1") <= hi])
    return tuple(sorted(FIELDS[j] for j in range(n) if k >> j & 1))


@contract(P, covers=[K + "filter_completions", K + "prime_registry", K + "model_registry", U + "factors"], secs=80, runs=600)
def filtered(g):
    """filter_completions keeps exactly the models that contain no model of the sieve,
    with their completions, whatever the order of either."""
    n = 5 if g.thorough else 4
    a, b = model(g, "a", n), model(g, "b", n, 2)
    s, t = model(g, "s", n, 2), model(g, "t", n, 1)
    comps = {a: ["A"], b: ["B", "b"]}
    sieve = {s: ["S"], t: ["T"]} if g.pick("two", [True, False]) else {s: ["S"]}
    got = g.fn(K + "filter_completions")(dict(comps), dict(sieve))
    want = {k: v for k, v in comps.items() if not any(set(q) <= set(k) for q in sieve)}
    g.ensure("exactly those", got == want)
    g.ensure("given ones kept", len(comps) == len({a, b}))


@contract(P, covers=[K + "filter_completions"], secs=40, runs=300)
def laws(g):
    """A model filtered against itself goes, against nothing stays, and filtering twice
    or in two steps is filtering once."""
    ms = [model(g, f"m{k}", 4, 2) for k in range(2)]
    ss = [model(g, f"s{k}", 3, 1) for k in range(2)]
    f = g.fn(K + "filter_completions")
    comps = {m: [str(k)] for k, m in enumerate(ms)}
    g.ensure("itself", f(comps, {ms[0]: ["x"]}).get(ms[0]) is None)
    g.ensure("nothing", f(comps, {}) == comps)
    both = {s: ["s"] for s in ss}
    step = f(f(comps, {ss[0]: ["s"]}), {ss[1]: ["s"]})
    g.ensure("two steps", step == f(comps, both))
    g.ensure("twice", f(f(comps, both), both) == f(comps, both))


@contract(P, covers=[K + "prime_registry", K + "model_registry"], secs=40, runs=300)
def registry(g):
    """Every field of the models gets its own prime; the number of a model is the product
    of the primes of its fields, so different models have different numbers."""
    import sympy

    ms = [model(g, f"m{k}", 4) for k in range(2)]
    d = {m: [] for m in ms}
    reg = g.fn(K + "prime_registry")(d)
    g.ensure("fields", set(reg) == {f for m in ms for f in m})
    g.ensure("primes", all(sympy.isprime(int(v)) for v in reg.values()) and len(set(reg.values())) == len(reg))
    num = g.fn(K + "model_registry")(d, reg)
    for m in ms:
        w = 1
        for f in m:
            w *= reg[f]
        g.ensure("product", num[m] == w)
    g.ensure("different", (num[ms[0]] == num[ms[1]]) == (ms[0] == ms[1]))


class Comp:
    def __init__(self, fields, name):
        self.fields, self.name = fields, name

    def exotic_info(self):
        return {f"x{k}": f for k, f in enumerate(self.fields)}


@contract(P, covers=[K + "collect_completions"], secs=60, runs=400)
def collected(g):
    """collect_completions puts every completion, in whatever order they come, under its
    set of fields, each once."""
    n = g.pick("n", [0, 1, 2, 3, 4], quick=4 if g.symbolic else None)
    cs = []
    for k in range(n):
        m = list(model(g, f"c{k}", 3, 2))
        if m and g.pick(f"twice{k}", [False, True]):
            m.append(m[0])
        cs.append(Comp(m, k))
    own = g.pick("key", [False, True])
    f = g.fn(K + "collect_completions")
    out = f(iter(cs) if g.pick("iterator", [False, True]) else cs, key=(lambda c: {0: (len(c.fields),)}) if own else None)
    kf = (lambda c: ((len(c.fields),),)) if own else (lambda c: tuple(sorted(set(c.fields))))
    g.ensure("none lost", sorted(c.name for v in out.values() for c in v) == list(range(n)))
    for k, v in out.items():
        g.ensure("under its fields", all(kf(c) == k for c in v))
        g.ensure("in order", [c.name for c in v] == sorted(c.name for c in v))


@contract(P, covers=[U + "factors"], mode="conc", exhaustive=True)
def divisors(g):
    """factors(n) is the set of divisors of n: all n up to 3000, and products of up to
    five of the first 25 primes."""
    import sympy

    f = g.fn(U + "factors")
    k = g.pick("block", range(31))
    if k < 30:
        for n in range(100 * k + 1, 100 * k + 101):
            g.ensure("divisors", f(n) == {d for d in range(1, n + 1) if n % d == 0})
    else:
        import random

        rng = random.Random(4)
        for _ in range(60):
            n = 1
            for _ in range(rng.randint(1, 5)):
                n *= int(sympy.prime(rng.randint(1, 25)))
            g.ensure("divisors", f(n) == {int(d) for d in sympy.divisors(n)})


@contract(P, covers=[K + "collect_completions", K + "filter_completions", K + "collect_models"], mode="conc", runs=25, gsecs=25)
def real(g):
    """Operators of the catalogue: collected by content and filtered against those of
    another operator."""
    st = real.__dict__
    w = "c" + str(id(g.world))
    if w not in st:
        eff = g.fn("completions.operators.EFF_OPERATORS")
        oc = g.fn(K + "operator_completions")
        st[w] = {n: list(oc(eff[n])) for n in ("1", "2", "3a", "3b", "4a", "8")}
    a, b = g.pick("a", ["2", "3a", "3b", "4a", "8"]), g.pick("b", ["1", "2", "3a", "8"])
    col = g.fn(K + "collect_completions")
    ca, cb = list(st[w][a]), list(st[w][b])
    if g.pick("shuffle", [0, 1]):
        ca = ca[1::2] + ca[::2]
    A, B = col(ca), col(cb)
    g.ensure("none lost", sorted(map(id, ca)) == sorted(id(c) for v in A.values() for c in v))
    g.ensure("content", all(tuple(sorted(set(c.exotic_info().values()))) == k for k, v in A.items() for c in v))
    got = g.fn(K + "filter_completions")(A, B)
    g.ensure("filtered", got == {k: v for k, v in A.items() if not any(set(q) <= set(k) for q in B)})
    g.ensure("models", len(g.fn(K + "collect_models")(ca)) == len(A))
