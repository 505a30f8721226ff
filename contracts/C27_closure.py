"""Closing operators to neutrino masses: components, rules, estimates."""

from fractions import Fraction
from itertools import product

from vx.harness import contract

LEVEL = "proof"
P = "C27"
C = "database.closures."
U = "database.utils."
O = "completions.operators."
T = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "completions.operators", "database.closures", "database.utils")
ASSUMES = (
    "matchpy: match(subject, pattern) yields the substitutions under which the pattern is the subject up to order; substitute applies one",
    "numerical values (sympy.solve, floating point) are not specified",
)


def catalogue(g):
    return {**g.fn(O + "EFF_OPERATORS"), **g.fn(O + "DERIV_EFF_OPERATORS")}


# -- the rules -------------------------------------------------------------------
# charge (in units of 1/3), lepton number, baryon number (1/3), doublet
SM = {
    "nu": (0, 1, 0, 1), "e": (-3, 1, 0, 1), "u": (2, 0, 1, 1), "d": (-1, 0, 1, 1),
    "h0": (0, 0, 0, 1), "hp": (3, 0, 0, 1), "eb": (3, -1, 0, 0), "ub": (-2, 0, -1, 0),
    "db": (1, 0, -1, 0), "W": (-3, 0, 0, 0),
}
CONST = {"nunu": (0, 2, 0, 0), "v": (0, 0, 0, 1)}  # two neutrinos; a vacuum expectation value


def atoms(op):
    """[(name, conjugate?)] of an operation's fields, constants as ('Const', name)."""
    out = []
    for x in op:
        h = getattr(x.head, "name", None) or str(x)
        if h == "Const":
            out.append(("Const", str(x.operands[0])))
        elif h == "c":
            out.append((str(x.operands[0]), True))
        elif h == "rst" or type(x).__name__ == "Wildcard":
            out.append(("rest", False))
        else:
            out.append((str(x), False))
    return out


def total(g, at):
    q = [0, 0, 0, 0]
    for n, cj in at:
        if n == "rest":
            continue
        v = CONST.get(cj, (0, 0, 0, 0)) if n == "Const" else SM[n]
        s = -1 if cj is True else 1
        for k in range(4):
            q[k] += s * v[k]
    q[3] %= 2
    return tuple(q)


@contract(P, covers=[C + "RULES"], mode="conc", runs=1)
def rules_conserve(g):
    """Every rule keeps electric charge, lepton number, baryon number and the
    number of doublets (mod 2, with those of the vevs), keeps the rest, and brings
    in a Yukawa coupling just when a right-handed field goes or comes (mod 2)."""
    for k, v in g.fn(C + "RULES").items():
        a, b = atoms(k), atoms(v)
        for n, what in enumerate(("charge", "lepton number", "baryon number", "doublets")):
            g.ensure(f"{k}: {what}", total(g, a)[n] == total(g, b)[n])
        for f, y in (("ub", "yu"), ("db", "yd"), ("eb", "ye")):
            n = [sum(x[0] == f for x in at) + at.count(("Const", y)) for at in (a, b)]
            g.ensure(f"{k}: {y} as often as {f} (mod 2)", (n[0] - n[1]) % 2 == 0)
        g.ensure(f"{k}: rest", a.count(("rest", False)) == 1 and b.count(("rest", False)) == 1)
        g.ensure(f"{k}: nothing but fields to be closed", all(n in SM or n == "rest" for n, _ in a))


@contract(P, covers=[C + "RULES"], mode="conc", runs=1)
def rules_end(g):
    """There is a weight of fields that every rule lowers: rewriting always ends."""
    import z3

    s = z3.Solver()
    W = {}

    def weight(at):
        out = 0
        for n, cj in at:
            if n in ("Const", "rest"):
                continue
            if (n, cj) not in W:
                W[n, cj] = z3.Real(f"w_{n}_{cj}")
                s.add(W[n, cj] >= 0)
            out = out + W[n, cj]
        return out

    for k, v in g.fn(C + "RULES").items():
        s.add(weight(atoms(k)) >= weight(atoms(v)) + 1)
    g.ensure("some weight decreases under every rule", s.check() == z3.sat)


class Pat:
    def __init__(self, p):
        self.p = p


@contract(P, covers=[C + "apply_rules"], world=True)
def first_rule(g):
    """The first rule that matches is applied, once; if none does, nothing is."""
    n = g.pick("n", [0, 1, 2, 3, 5])
    rules = {f"k{k}": f"v{k}" for k in range(n)}
    hits = [g.int(f"hits{k}", 0, 2) for k in range(n)]

    def match(subject, pattern):
        if not (subject == "subject" and isinstance(pattern, Pat)):
            raise RuntimeError("match")
        h = hits[int(pattern.p[1:])]
        return [f"{pattern.p}/{j}" for j in range(2) if bool(h > j)]

    calls = []

    def substitute(pattern, sub):
        calls.append(sub)
        return (pattern.p, sub)

    with patched(g, C, match=match, substitute=substitute, Pattern=Pat):
        got = g.fn(C + "apply_rules")(rules, "subject")
    for k in range(n):
        if bool(hits[k] > 0):
            g.ensure("first match", got == (f"v{k}", f"k{k}/0"))
            return
    g.ensure("left alone", got == "subject")


class patched:
    def __init__(self, g, where, **k):
        self.mod, self.k = g.mod(where[:-1]), k

    def __enter__(self):
        self.old = {n: getattr(self.mod, n) for n in self.k}
        for n, v in self.k.items():
            setattr(self.mod, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(self.mod, n, v)


@contract(P, covers=[C + "fixed_point"])
def until_nothing_applies(g):
    """Rules are applied until none changes the operator; an operator closed in
    fewer than the allowed number of steps is closed completely."""
    n = g.int("steps", 0, 12)
    cap = g.pick("cap", [10, 1, 3])
    kw = {} if cap == 10 and g.pick("told", [0, 1]) == 0 else {"max_iterations": cap}

    class St:
        def __init__(self, k):
            self.k = k

        def __eq__(self, o):
            return isinstance(o, St) and self.k == o.k

        def __ne__(self, o):
            return not self == o

    def apply_rules(rules, s):
        if rules != "rules":
            raise RuntimeError("rules")
        return St(s.k + 1) if bool(n > s.k) else s

    import contextlib
    import io

    with patched(g, C, apply_rules=apply_rules), contextlib.redirect_stdout(io.StringIO()):
        out = g.fn(C + "fixed_point")(St(0), rules="rules", **kw)
    if bool(n < cap):
        g.ensure("nothing applies", n == out.k)
    else:
        g.ensure("only steps of the rules", g.all([n >= out.k, out.k >= 0]))


@contract(P, covers=[C + "clean"])
def cleaned(g):
    """The constants of an operator that is closed, each as often; one that is
    not is given back."""

    class Item:
        def __init__(self, n, const):
            self.head = type("Head", (), {"name": "Const" if const else "c"})()
            self.operands = [n]

    n = g.pick("n", [0, 1, 2, 3, 4])
    const = [g.bool(f"const{k}") for k in range(n)]
    op = [Item(g.pick(f"name{k}", ["v", "loop"]), bool(const[k])) for k in range(n)]
    got = g.fn(C + "clean")(op)
    if bool(g.all(const)):
        g.ensure("constants", got is not op and sorted(got) == sorted(i.operands[0] for i in op))
    else:
        g.ensure("not closed", got is op)


@contract(P, covers=[C + "neutrino_mass_estimate"], runs=200)
def estimate(g):
    """v^2/Lambda times every coupling and loop; further pairs of vevs each give
    loopv2; structures that do not close are left out; anything but exactly two
    neutrinos, or an odd number of vevs, is refused."""
    import sympy

    n = g.pick("n", [1, 2, 0])
    lists, want, bad = [], [], False
    for k in range(n):
        if g.bool(f"open{k}"):
            lists.append(("open", k))
            continue
        nu = g.pick(f"nunu{k}", [1, 0, 2])
        vs = g.pick(f"v{k}", [2, 4, 3, 6])
        lo = g.pick(f"loop{k}", [0, 1, 2], quick=2)
        ye = g.pick(f"ye{k}", [0, 1, 2], quick=2)
        l2 = g.pick(f"loopv2{k}", [0, 1], quick=2 if n == 1 else 1)
        lst = ["v"] * vs + ["loop"] * lo + ["ye"] * ye + ["loopv2"] * l2
        lst[1:1] = ["nunu"] * nu
        lists.append(lst)
        bad = bad or nu != 1 or vs % 2
        S = sympy.Symbol
        want.append(S("v") ** 2 / S("Λ") * S("loop") ** lo * S("ye") ** ye * S("loopv2") ** (l2 + (vs - 2) // 2))
    given = [list(x) if isinstance(x, list) else x for x in lists]
    with patched(g, C, clean=lambda x: x, fixed_point=lambda x: x):
        f = g.fn(C + "neutrino_mass_estimate")
        if bad:
            g.expect("refused", AssertionError, f, given)
            return
        g.ensure("estimates", f(given) == want)


@contract(P, covers=[U + "get_leading_mv", U + "estimate_np_scale"])
def leading(g):
    """The leading mass is the estimate of largest value; the scales are those of
    every estimate, in order."""
    n = g.pick("n", [1, 2, 3, 4])
    x = {f"e{k}": g.real(f"x{k}") for k in range(n)}
    with patched(g, U, neutrino_mass_estimate=lambda op: [f"e{k}" for k in range(n)],
                 numerical_mv=lambda e: x[e], numerical_np_scale_estimate=lambda e: x[e]):
        lead = g.fn(U + "get_leading_mv")("op")
        scales = g.fn(U + "estimate_np_scale")("op")
    g.ensure("an estimate", lead in x)
    g.ensure("largest", g.all([x[lead] >= v for v in x.values()]))
    g.ensure("scales", g.eq(scales, list(x.values())))


@contract(P, covers=[U + "loop_data"], mode="conc", exhaustive=True, gsecs=60, runs=1000)
def loops(g):
    """The loops counted are the powers in the estimate; every loopv2 may be a
    loop or none."""
    import sympy

    S = sympy.Symbol
    a, b = g.int("loops", 0, 6), g.int("loopv2", 0, 6)
    ye, extra = g.int("ye", 0, 2), g.int("g2", 0, 1)
    e = S("v") ** 2 / S("Λ") * S("loop") ** a * S("loopv2") ** b * S("ye") ** ye * S("g2") ** extra
    n, v2 = g.fn(U + "loop_data")(e)
    g.ensure("loops", n == a)
    g.ensure("loopv2", v2 == (list(range(b + 1)) if b else []))


# -- components ------------------------------------------------------------------

COMP = {"H": ("hp", "h0"), "L": ("nu", "e"), "Q": ("u", "d"), "eb": ("eb",), "ub": ("ub",), "db": ("db",)}


def component(label, conj, i):
    """Component with isospin +1/2 (i = 0) or -1/2 of a field or its conjugate."""
    xs = COMP[label]
    if len(xs) == 1:
        return xs[0], conj
    return xs[i if not conj else 1 - i], conj


def components(g, op):
    """Independent expansion: (sorted particles) of every assignment in which the
    two indices of every isospin epsilon differ."""
    fields, eps = [], []
    for t in op.tensors:
        ix = [str(-i) if str(i)[0] == "-" else str(i) for i in t.indices]
        if hasattr(t, "charges"):
            iso = [n for n in ix if n[0] == "i"]
            lab = t.label.replace("†", "")
            for s in ("D", "(", ")"):
                lab = lab.replace(s, "") if t.derivs else lab
            fields.append((lab, bool(t.is_conj), iso))
        elif ix[0][0] == "i":
            eps.append(ix)
    out = []
    for bits in product((0, 1), repeat=len(eps)):
        val = {}
        for (a, b), z in zip(eps, bits):
            val[a], val[b] = z, 1 - z
        out.append(tuple(sorted(component(l, c, val[iso[0]] if iso else 0) for l, c, iso in fields)))
    return sorted(out)


def parsed(g, op):
    return sorted(tuple(sorted(atoms(o))) for o in g.fn(C + "parse_operator")(op))


@contract(P, covers=[C + "parse_operator"], mode="conc", runs=1, gsecs=100)
def catalogue_components(g):
    """Every operator of the catalogue is expanded into all its components, each
    as often as it occurs, neutral and of lepton number two."""
    for name, op in catalogue(g).items():
        got = parsed(g, op)
        g.ensure(f"{name}: components", got == components(g, op.operator))
        for s in got:
            g.ensure(f"{name}: neutral", total(g, s)[:2] == (0, 2))


@contract(P, covers=[C + "parse_operator"], mode="conc", runs=150)
def any_names(g):
    """Names of indices do not matter, nor does another order of the factors; the
    epsilons of Lorentz and colour indices play no part."""
    sm = g.mod("tensormethod.sm")
    eps = g.fn(T + "eps")
    kinds = [g.pick(f"k{k}", ["L", "H", "Q", "L†", "H†", "Q†"]) for k in range(g.pick("n", [2, 4, 6]))]
    names = [g.pick(f"name{k}", ["0", "1", "10", "11", "100", "_i", "_j", "2", "21", "3"]) for k in range(len(kinds))]
    g.assume(len(set(names)) == len(names))
    ts = []
    for k, (f, n) in enumerate(zip(kinds, names)):
        F = getattr(sm, f[0])
        F = F.conj if f.endswith("†") else F
        d = F.dynkin
        ix = [f"u{k}"] * int(d[0]) + [f"d{k}"] * int(d[1]) + [f"c{k}"] * int(d[2]) + [f"-c{k}"] * int(d[3]) + [f"i{n}"]
        ts.append(F(" ".join(ix)))
    pairs = list(range(len(kinds)))
    order = []
    while pairs:
        a = pairs.pop(0)
        b = pairs.pop(g.int(f"p{a}", 0, len(pairs) - 1))
        order.append((a, b))
    for a, b in order:
        ts.append(eps(f"-i{names[a]} -i{names[b]}"))
    und = [f"-u{k}" for k, f in enumerate(kinds) if f in ("L", "Q")]
    if len(und) >= 2 and g.bool("lorentz"):
        ts.append(eps(" ".join(und[:2])))
    col = [f"-c{k}" for k, f in enumerate(kinds) if f == "Q"]
    if len(col) >= 3 and g.bool("colour"):
        ts.append(eps(" ".join(col[:3])))
    if g.bool("shuffle"):
        ts = ts[::-1]
    op = g.fn(T + "Operator")(*ts)
    g.ensure("components", parsed(g, op) == components(g, op))


@contract(P, covers=[C + "neutrino_mass_estimate", C + "fixed_point", C + "apply_rules", C + "clean"], mode="conc", runs=1, gsecs=120)
def catalogue_estimates(g):
    """Every structure of the catalogue is rewritten until no rule applies, and
    every operator is given at least one estimate."""
    import matchpy

    rules = g.fn(C + "RULES")
    fp, pats = g.fn(C + "fixed_point"), [matchpy.Pattern(k) for k in rules]
    quick = not g.thorough
    for j, (name, op) in enumerate(catalogue(g).items()):
        if quick and j % 3:
            continue
        n = 0
        for s in g.fn(C + "parse_operator")(op):
            e = fp(s)
            g.ensure(f"{name}: {s}: conserved", total(g, atoms(e)) == total(g, atoms(s)))
            g.ensure(f"{name}: {s}: no rule applies", not any(True for p in pats for _ in matchpy.match(e, p)))
            n += isinstance(g.fn(C + "clean")(e), list)
        est = g.fn(C + "neutrino_mass_estimate")(op)
        g.ensure(f"{name}: one estimate for each closed structure", len(est) == n and n > 0)
