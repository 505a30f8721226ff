"""Inputs shared by the contracts."""

TYPES = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin", "g": "Generation"}
BAR = {"u": "d", "d": "u"}


def ilabel(g, name, types="udcig", signs=("", "-"), rest=None):
    """Label of an index: sign, type letter, free rest."""
    s = g.pick(name + "_sign", list(signs)) if len(signs) > 1 else signs[0]
    t = g.pick(name + "_type", list(types)) if len(types) > 1 else types
    r = g.text(name + "_rest", only="0123456789", lo=1) if rest is None else rest
    return s, t, r, s + t + r


def same_index(g, i, name, type_, up):
    return g.all([i.name == name, str(i.tensor_index_type) == type_, bool(i.is_up) == up])


def charges(g, name, extra=True):
    c = {"y": g.real(f"{name}_y"), "3b": g.real(f"{name}_b")}
    if extra and g.bool(f"{name}_extra"):
        c["l"] = g.real(f"{name}_l")
    return c


def field(g, name, derivs=0, digits=None, label=None, extra=True, hi=9, **kw):
    """An arbitrary field: free label, Dynkin digits, charges and bookkeeping."""
    F = g.fn("tensormethod.core.Field")
    if digits is None:
        digits = [g.digit(f"{name}_d{i}", hi) for i in range(5)]
    dynkin = digits[0] + digits[1] + digits[2] + digits[3] + digits[4]
    a = dict(
        charges=charges(g, name, extra),
        is_conj=g.bool(f"{name}_conj"),
        comm=g.int(f"{name}_comm", 0, 1),
        nf=g.pick(f"{name}_nf", [1, 3]),
        latex=g.text(f"{name}_latex", lo=1, no="()"),
        derivs=derivs,
    )
    a.update(kw)
    if label is None:
        label = g.text(f"{name}_label", no="†(),: \\", lo=1)
    return F(label, dynkin=dynkin, **a), digits


def stat(g, dynkin):
    """The code's name for the statistics of a field with these Dynkin labels."""
    return g.fn("tensormethod.core." + ("FERMI" if (int(dynkin[0]) + int(dynkin[1])) % 2 else "BOSE"))


def raises(fn, *excs):
    try:
        fn()
    except excs:
        return True
    return False


def multiset_eq(a, b):
    """Same elements with the same multiplicities, by == (no hashing)."""
    b = list(b)
    for x in a:
        for k, y in enumerate(b):
            if x == y:
                del b[k]
                break
        else:
            return False
    return not b
