"""Interface contracts assumed of external code, used only in symbolic runs.

Rational(x)  : the rational number x   (x a symbolic number, an int, or text)
Each patch is listed in the evidence of the checks that run with it.
"""

from fractions import Fraction

import z3

from vx import core
from vx.core import SNum

TRUSTED = {
    "neutrinomass.tensormethod.core": "sympy.Rational(x) is exact rational arithmetic",
}


def patch(modname, module):
    d = module.__dict__
    if "Rational" in d:

        def Rational(x, *a):
            if isinstance(x, SNum):
                return x if not x.is_int else SNum(z3.ToReal(x.e))
            if a:
                return Fraction(x, *a)
            if isinstance(x, core.SStr) and not a:
                us, sign = core.units_of(x), 1
                if us and isinstance(us[0], str) and us[0] == "-":
                    us, sign = us[1:], -1
                if len(us) == 1 and isinstance(us[0], core.Atom) and us[0].kind == "posrat":
                    k = us[0].key
                    return SNum(z3.simplify(sign * (z3.ToReal(k) if k.sort() == core.INT else k)))
                core.unsupported("Rational of an opaque text")
            if isinstance(x, (str, int, float, Fraction)):
                return Fraction(x)
            return Fraction(int(x.p), int(x.q))

        d["Rational"] = Rational
