"""Mixing matrices, and the couplings that reproduce neutrino masses."""

import cmath
import importlib.util
import math
import sys
import types

import sympy

from vx.harness import contract

for _n in ("flavio", "wilson"):  # only used by run_point, which has no contract
    if _n not in sys.modules and importlib.util.find_spec(_n) is None:
        sys.modules[_n] = types.ModuleType(_n)
        sys.modules[_n].Wilson = None

LEVEL = "proof"
P = "C34"
A = "analysis.utils."
F = "analysis.flavour_anomalies."
PRELOAD = ("analysis.utils", "analysis.flavour_anomalies")
ASSUMES = (
    "sympy's division of polynomials decides whether an entry is zero",
    "numpy's matrix, dot, sqrt and exp compute what their exact counterparts do, up to rounding (the proof puts the exact ones in their place)",
)
TOL = 1e-12


class ExactMatrix(sympy.Matrix):
    """Own class: what it cannot do is then known to be no fault of the code."""


class Exact:
    """Exact counterparts of the numpy functions used."""

    complex128 = complex

    def __init__(self, phases=()):
        self.phases = dict(phases)

    def matrix(self, rows, dtype=None):
        return ExactMatrix([[sympy.nsimplify(x) if isinstance(x, (int, float, complex)) else x for x in r] for r in rows])

    def exp(self, x):
        """Phases of known angles become points of the circle."""
        x = sympy.nsimplify(sympy.sympify(x))
        out = sympy.Integer(1)
        for t in sympy.Add.make_args(sympy.expand(x / sympy.I)):
            k, s = t.as_coeff_Mul()
            if t == 0:
                continue
            if s not in self.phases or k not in (1, -1):
                raise TypeError("'Exact' knows no such phase")
            out *= self.phases[s][0 if k == 1 else 1]
        return out

    def dot(self, a, b):
        return a * b

    def sqrt(self, x):
        return sympy.sqrt(x)

    def conjugate(self, x):
        return x.conjugate()


def want(c12, c13, c23, s12, s13, s23, d, a, b, e=None):
    """Equation 1.1 of 1611.01514 with Majorana phases, written out; d, a, b are the
    phases (numbers on the unit circle)."""
    e = 1 / d if e is None else e
    return [
        [c12 * c13 * a, s12 * c13 * b, s13 * e],
        [(-s12 * c23 - c12 * s23 * s13 * d) * a, (c12 * c23 - s12 * s23 * s13 * d) * b, s23 * c13],
        [(s12 * s23 - c12 * c23 * s13 * d) * a, (-c12 * s23 - s12 * c23 * s13 * d) * b, c23 * c13],
    ]


CS = sympy.symbols("c12 c13 c23 s12 s13 s23", real=True)
PH = sympy.symbols("d a b")
INV = sympy.symbols("D A B")
IDEAL = [CS[k] ** 2 + CS[k + 3] ** 2 - 1 for k in range(3)] + [x * y - 1 for x, y in zip(PH, INV)]


def zero(x):
    """Whether a polynomial vanishes where cosine and sine are those of an angle and every
    phase times its inverse is one (the basis is a Groebner basis: the leading terms are
    coprime, so the remainder decides)."""
    x = sympy.expand(sympy.nsimplify(sympy.expand(x)))
    return x == 0 or sympy.reduced(x, IDEAL, *CS, *PH, *INV, order="grevlex")[1] == 0


def conj(x):
    """Complex conjugate: phases become their inverses."""
    x = sympy.conjugate(x)
    return x.subs({sympy.conjugate(p): q for p, q in zip(PH, INV)} | {sympy.conjugate(q): p for p, q in zip(PH, INV)}, simultaneous=True)


def same(m, w, close):
    return all(close(m[i, j] - w[i][j]) for i in range(3) for j in range(3))


@contract(P, covers=[A + "UnitaryMatrix." + n for n in ("__init__", "cols", "get_dagger")], runs=60)
def numeric(g):
    """The matrix of numbers has the entries of the parametrisation, is unitary, and its
    columns and dagger are its transpose and inverse."""
    cls = g.fn(A + "UnitaryMatrix")
    if not g.symbolic:
        ang = [g.int(f"t{k}", -1000, 1000) / 150 for k in range(6)]
        c, s, ph = [math.cos(x) for x in ang[:3]], [math.sin(x) for x in ang[:3]], [cmath.exp(1j * x) for x in ang[3:]]
        m = cls(*c, *s, *ang[3:], symb=False)
        w = want(*c, *s, *ph)
        close = lambda x: abs(x) < TOL
        g.ensure("entries", same(m.val, w, close))
        h = m.get_dagger()
        g.ensure("dagger", all(close(h[i, j] - complex(w[j][i]).conjugate()) for i in range(3) for j in range(3)))
        g.ensure("columns", all(close(m.cols()[i, j] - w[j][i]) for i in range(3) for j in range(3)))
        g.ensure("unitary", all(close(sum(m.val[i, k] * m.val[j, k].conjugate() for k in range(3)) - (i == j)) for i in range(3) for j in range(3)))
        return
    mod = g.mod("analysis.utils")
    an = sympy.symbols("u0:3", real=True)
    old, mod.np = mod.np, Exact(zip(an, zip(PH, INV)))
    try:
        m = cls(*CS, *an, symb=False)
    finally:
        mod.np = old
    w = want(*CS, *PH, INV[0])
    g.ensure("entries", same(m.val, w, zero))
    h = m.get_dagger()
    g.ensure("dagger", all(zero(conj(sympy.conjugate(h[i, j])) - conj(w[j][i])) for i in range(3) for j in range(3)))
    g.ensure("columns", all(zero(m.cols()[i, j] - w[j][i]) for i in range(3) for j in range(3)))
    g.ensure("unitary", all(zero(sum(m.val[i, k] * conj(m.val[j, k]) for k in range(3)) - (1 if i == j else 0)) for i in range(3) for j in range(3)))


@contract(P, covers=[A + "UnitaryMatrix." + n for n in ("__init__", "cols", "get_dagger")], runs=2)
def symbolic(g):
    """The matrix of symbols has the entries of the parametrisation for every angle and
    phase; its columns and dagger are its transpose and conjugate transpose."""
    cls = g.fn(A + "UnitaryMatrix")
    sy = sympy.symbols("c12 c13 c23 s12 s13 s23 d a b", real=True)
    m = cls(*sy, symb=True)
    e = lambda x: sympy.exp(sympy.I * x)
    w = want(*sy[:6], *[e(x) for x in sy[6:]])
    z = lambda x: sympy.expand(sympy.nsimplify(sympy.expand(x))) == 0
    g.ensure("entries", same(m.val, w, z))
    h = m.get_dagger()
    g.ensure("dagger", all(z(h[i, j] - sympy.conjugate(w[j][i])) for i in range(3) for j in range(3)))
    g.ensure("columns", all(z(m.cols()[i, j] - w[j][i]) for i in range(3) for j in range(3)))


@contract(P, mode="conc", runs=1, covers=[A + "UnitaryMatrix.__init__"])
def measured(g):
    """The PMNS and CKM matrices of the package are unitary with the measured angles; the
    neutrino masses are those of the measured differences, lightest massless."""
    mod = g.mod("analysis.utils")
    deg = math.radians
    for name, m, (a12, a23, a13), d in [("PMNS", mod.PMNS.val, (33.82, 49.6, 8.61), deg(215.0)), ("CKM", mod.CKM, (13.04, 2.38, 0.201), None)]:
        if d is None:
            d = mod.DELTA_CP_CKM
        t = [deg(a12), deg(a13), deg(a23)]
        w = want(*[math.cos(x) for x in t], *[math.sin(x) for x in t], cmath.exp(1j * d), 1, 1)
        g.ensure(name, same(m, w, lambda x: abs(x) < TOL))
        g.ensure(name + " unitary", all(abs(sum(m[i, k] * m[j, k].conjugate() for k in range(3)) - (i == j)) < TOL for i in range(3) for j in range(3)))
    g.ensure("masses", all(abs(x / y - 1) < 1e-9 if y else x == 0 for x, y in zip(mod.NEUTRINO_MASSES, [0, math.sqrt(7.40e-5) * 1e-9, math.sqrt(2.494e-3) * 1e-9])) and len(mod.NEUTRINO_MASSES) == 3)


@contract(P, covers=[F + "x", F + "Z"], runs=60)
def couplings(g):
    """The two vectors of couplings give the neutrino-mass matrix: m0 (x Z^T + Z x^T) is
    U* diag(0, m2, m3) U^dagger, whatever the free complex parameter and the scale."""
    fx, fZ = g.fn(F + "x"), g.fn(F + "Z")
    mod = g.mod("analysis.flavour_anomalies")
    if g.symbolic:
        u2, u3 = sympy.symbols("p0:3"), sympy.symbols("q0:3")
        m2, m3, m0 = sympy.symbols("m2 m3 m0", positive=True)
        xi = sympy.Symbol("xi")
        old = {k: getattr(mod, k) for k in ("np", "U2", "U3", "MV2", "MV3")}
        mod.np, mod.U2, mod.U3, mod.MV2, mod.MV3 = Exact(), ExactMatrix([u2]), ExactMatrix([u3]), m2, m3
        try:
            x, z = fx(xi, m0), fZ(xi, m0)
        finally:
            for k, v in old.items():
                setattr(mod, k, v)
        close = lambda a: sympy.expand(sympy.simplify(sympy.nsimplify(sympy.expand(a)))) == 0
    else:
        import numpy as np

        pm = np.asarray(mod.PMNS.val)
        u2, u3 = pm[:, 1].conjugate(), pm[:, 2].conjugate()
        m2, m3 = math.sqrt(7.40e-5) * 1e-9, math.sqrt(2.494e-3) * 1e-9
        m0 = g.int("m0", 1, 1000) * 1e-12
        xi = cmath.rect(g.int("r", 1, 50) / 10, g.int("a", -300, 300) / 100)
        x, z = fx(xi, m0), fZ(xi, m0)
        close = lambda a: abs(a) < 1e-9 * m3
    g.ensure("three", len(x) == 3 and len(z) == 3)
    g.ensure("masses", all(close(m0 * (x[i] * z[j] + z[i] * x[j]) - m2 * u2[i] * u2[j] - m3 * u3[i] * u3[j]) for i in range(3) for j in range(3)))
    if not g.symbolic:
        y, w = fx(1, m0), fZ(1, m0)
        g.ensure("parameter", all(abs(a / b / xi - 1) < 1e-9 for a, b in zip(x, y)) and all(abs(a / b * xi - 1) < 1e-9 for a, b in zip(z, w)))
