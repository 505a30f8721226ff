"""Neutrino masses and new-physics scales from estimates."""

import math
from fractions import Fraction

import sympy

from vx.harness import contract

LEVEL = "proof"
P = "C35"
C = "database.closures."
U = "database.utils."
PRELOAD = ("database.closures", "database.utils")
ASSUMES = (
    "sympy's subs of a list replaces one symbol after the other, in order; solve gives a root of an equation in one unknown",
    "an estimate is v^2/Λ times powers of loop, loopv2 and couplings: the new-physics scale is then the only positive root, as k(l + v^2/Λ^2)^n falls and Λ grows",
    "measured values: v 174 GeV, neutrino mass 5e-11 GeV, g2 0.6295, masses of t, b, tau 172.76, 4.18, 1.78 GeV",
)
V, MV, LOOP = 174, 5e-11, 1 / (16 * math.pi**2)
VALUES = {"v": V, "loop": LOOP, "g2": 0.6295**2, "yu": 172.76 / V, "yd": 4.18 / V, "ye": 1.78 / V}
NAMES = ["loop", "loopv2", "g2", "yu", "yd", "ye"]


class Monomial:
    """An estimate: a product of powers, which only records what is put in for its
    symbols (every power of a symbol gets what the symbol gets)."""

    def __init__(self, names, value=None):
        self.left, self.value = tuple(names), value or {}

    def subs(self, *args):
        if len(args) == 2:
            items = [args]
        elif isinstance(args[0], dict):
            items = list(args[0].items())
        else:
            items = list(args[0])
        out = dict(self.value)
        left = list(self.left)
        for s, x in items:
            n = str(s)
            x = x[0] if isinstance(x, tuple) else x
            out = {k: (sympy.sympify(y).subs(sympy.Symbol(n), x)) for k, y in out.items()}
            if n in left:
                left.remove(n)
                out[n] = sympy.sympify(x)
        return Monomial(left, out)

    def __sub__(self, x):
        return Less(self, x)

    def _sympy_(self):
        raise TypeError("'Monomial' is no expression")


class Less:
    def __init__(self, m, x):
        self.m, self.x = m, x

    def _sympy_(self):
        raise TypeError("'Less' is no expression")


def near(a, b, tol=1e-9):
    return abs(complex(a) - complex(b)) <= tol * abs(complex(b))


@contract(P, covers=[C + "numerical_mv"], mode="sym")
def mass_symbols(g):
    """Every symbol of an estimate, whatever its power, is given its measured value, the
    new-physics scale 1000 GeV, also where it comes in through loopv2; none is left."""
    m = g.fn(C + "numerical_mv")(Monomial(["v", "Λ"] + NAMES))
    g.ensure("none left", not m.left and all(not v.free_symbols for v in m.value.values()))
    want = {**VALUES, "Λ": 1000, "loopv2": LOOP + V**2 / 1000**2}
    g.ensure("values", all(near(m.value[k], v) for k, v in want.items()))


@contract(P, covers=[C + "numerical_np_scale_estimate"], mode="sym")
def scale_symbols(g):
    """The equation solved for the scale is estimate = measured mass, with every symbol but
    the scale given its measured value and loopv2 = loop + v^2/scale^2; the answer is the
    size of its solution in TeV."""
    mod = g.mod("database.closures")
    seen = []
    root = sympy.Symbol("root", positive=True)

    class S:
        def __getattr__(self, n):
            if n == "solve":
                def solve(e, x):
                    seen.append((e, x))
                    return [root]

                return solve
            return getattr(sympy, n)

    old, mod.sympy = mod.sympy, S()
    try:
        got = g.fn(C + "numerical_np_scale_estimate")(Monomial(["v", "Λ"] + NAMES))
    finally:
        mod.sympy = old
    g.ensure("one equation", len(seen) == 1 and str(seen[0][1]) == "Λ")
    e = seen[0][0]
    if not isinstance(e, Less):
        raise TypeError("'Less' expected")  # another form of equation: not judged here
    g.ensure("mass", near(e.x, MV))
    lam = sympy.Symbol("Λ")
    g.ensure("only the scale left", e.m.left == ("Λ",) and all(v.free_symbols <= {lam} for v in e.m.value.values()))
    want = {**VALUES, "loopv2": LOOP + V**2 / lam**2}
    g.ensure("values", all(near(e.m.value[k].subs(lam, 777), sympy.sympify(v).subs(lam, 777)) for k, v in want.items()))
    g.ensure("TeV", near((got / root), 1e-3))


def expr(g, top):
    """An estimate of the kind the closures give."""
    n = {k: g.int(k, 0, {"loop": 5, "loopv2": top, "g2": 3}.get(k, 3)) for k in NAMES}
    e = sympy.Symbol("v") ** 2 / sympy.Symbol("Λ")
    for k, v in n.items():
        e *= sympy.Symbol(k) ** v
    return e, n


def value(n, lam):
    x = V**2 / lam * (LOOP + V**2 / lam**2) ** n["loopv2"]
    for k, v in n.items():
        if k != "loopv2":
            x *= VALUES[k] ** v
    return x


@contract(P, covers=[C + "numerical_mv"], mode="conc", runs=150, gsecs=20)
def mass(g):
    """The mass is the estimate's value at the measured parameters and 1 TeV."""
    e, n = expr(g, 3)
    g.ensure("value", near(g.fn(C + "numerical_mv")(e), value(n, 1000.0)))


@contract(P, covers=[C + "numerical_np_scale_estimate"], mode="conc", runs=40, gsecs=25)
def scale(g):
    """At the scale found the estimate is the measured mass; so it falls with every
    further loop or coupling below one."""
    e, n = expr(g, 2 if g.thorough else 1)
    s = g.fn(C + "numerical_np_scale_estimate")(e)
    g.ensure("a positive number", s.is_real is True and s > 0 if hasattr(s, "is_real") else s > 0)
    g.ensure("gives the mass", near(value(n, float(s) * 1e3), MV, 1e-6))


# estimates whose order at 1 TeV is not that of their scales
CLOSE = [{**dict.fromkeys(NAMES, 0), **x} for x in ({"loop": 1, "loopv2": 1}, {"loop": 1, "g2": 4}, {"loop": 2, "loopv2": 1}, {"loop": 2, "yd": 1}, {"loop": 1, "g2": 3})]


@contract(P, covers=[U + "get_leading_mv", U + "estimate_np_scale", U + "table_data"], mode="conc", runs=30, gsecs=25)
def leading(g):
    """Of the estimates of an operator the leading one has the largest mass; the scales
    are those of each in order; the table shows the largest scale and the loops of the
    estimate that has it."""
    mod = g.mod("database.utils")
    es = []
    for k in range(g.pick("n", [2, 3, 1])):
        n = {x: g.int(f"{x}{k}", 0, {"loopv2": 1, "g2": 4}.get(x, 3)) for x in NAMES} if g.bool(f"any{k}") else dict(g.pick(f"close{k}", CLOSE))
        e = sympy.Symbol("v") ** 2 / sympy.Symbol("Λ")
        for x, v in n.items():
            e *= sympy.Symbol(x) ** v
        es.append((e, n))
    old, mod.neutrino_mass_estimate = mod.neutrino_mass_estimate, lambda op: [e for e, _ in es]
    try:
        lead = g.fn(U + "get_leading_mv")("op")
        scales = g.fn(U + "estimate_np_scale")("op")
        loops, num = g.fn(U + "table_data")("op")
    finally:
        mod.neutrino_mass_estimate = old
    n = next(n for e, n in es if e == lead)
    g.ensure("leading", all(value(n, 1000.0) >= value(m, 1000.0) * (1 - 1e-9) for _, m in es))
    g.ensure("scales", len(scales) == len(es) and all(near(value(m, float(s) * 1e3), MV, 1e-6) for s, (_, m) in zip(scales, es)))
    top = max(float(s) for s in scales)
    g.ensure("largest", num.startswith("\\mynum{") and num.endswith("}") and (near(float(num[7:-1]), top, 1e-6) or abs(float(num[7:-1]) - top) <= 0.011))
    want = {",".join(str(m["loop"] + j) for j in range(m["loopv2"] + 1)) for s, (_, m) in zip(scales, es) if abs(float(s) - top) <= 0.011}
    g.ensure("loops", loops in want)
