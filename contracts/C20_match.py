"""Matching patterns against data."""

from vx.harness import contract

LEVEL = "proof"
P = "C20"
K = "utils.match."
PRELOAD = ("utils.match",)
ASSUMES = ("variables are texts that begin with a question mark; data contain none", "data have lists where the pattern has lists and tuples where it has tuples", "patterns of the listed shapes; leaves free")
NAMES = ["?x", "?y", "?z"]


def pair(g, name, depth=0):
    """A pattern and the data it is matched with, independently chosen leaves."""
    kinds = ["leaf", "var", "pair", "one", "empty", "three"]
    if depth >= (1 if g.symbolic and not g.thorough else 2):
        kinds = kinds[:2]
    kind = g.pick(name + "_k", kinds)
    if kind == "leaf":
        return leaf(g, name + "_p")
    if kind == "var":
        return g.pick(name + "_v", NAMES, quick=2 if g.symbolic else None)
    n = {"pair": 2, "one": 1, "empty": 0, "three": 3}[kind]
    ps = [pair(g, f"{name}.{k}", depth + 1) for k in range(n)]
    return ps if g.pick(name + "_t", [0, 1]) else tuple(ps)


def leaf(g, name):
    return g.pick(name, [0, 1, "", "a"]) if not g.symbolic else (g.int(name + "i") if g.pick(name, [0, 1]) else g.pick(name + "t", ["", "a"]))


def datum(g, name, p):
    """Data of the shape of the pattern, or nearly."""
    if isinstance(p, (list, tuple)):
        n = len(p)
        if g.pick(name + "_n", [0, 1]):
            n = g.pick(name + "_m", [0, 1, 2, 3], quick=3 if g.symbolic else None)
        return type(p)(datum(g, f"{name}.{k}", p[k] if k < len(p) else 0) for k in range(n))
    if isinstance(p, str) and p[:1] == "?" and g.pick(name + "_c", [0, 1], quick=1 if g.symbolic else None):
        return (leaf(g, name + "a"), leaf(g, name + "b"))
    return leaf(g, name)


def fill(p, frame):
    if isinstance(p, str) and p[:1] == "?":
        return frame[p]
    if isinstance(p, (list, tuple)):
        return tuple(fill(q, frame) for q in p)
    return p


def norm(x):
    return tuple(norm(y) for y in x) if isinstance(x, (list, tuple)) else x


def variables(p):
    if isinstance(p, str):
        return {p} if p[:1] == "?" else set()
    if isinstance(p, (list, tuple)):
        return set().union(*map(variables, p)) if p else set()
    return set()


def oracle(p, d, frame):
    """Most direct definition: bind left to right."""
    if isinstance(p, str) and p[:1] == "?":
        if p in frame:
            return frame if same(frame[p], d) else None
        return {**frame, p: d}
    if isinstance(p, (list, tuple)):
        if not isinstance(d, (list, tuple)) or len(p) != len(d):
            return None
        for a, b in zip(p, d):
            frame = oracle(a, b, frame)
            if frame is None:
                return None
        return frame
    return frame if not isinstance(d, (list, tuple)) and type_same(p, d) and bool(p == d) else None


def type_same(a, b):
    return isinstance(a, str) == isinstance(b, str)


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type_same(a, b) and bool(a == b)


@contract(P, covers=[K + "pattern_match", K + "is_match", K + "pmatch", K + "is_pattern_var", K + "_extend_if_consistent", K + "_match_on_collection"], secs=120, runs=1500)
def matched(g):
    """A match binds each variable to one value such that the pattern with the values put
    in is the data; there is a match exactly when such values exist; and it is the same
    through pmatch, is_match and pattern_match."""
    p = pair(g, "p")
    d = datum(g, "d", p)
    r = g.fn(K + "pmatch")(p, d)
    want = oracle(p, d, {})
    g.ensure("found exactly when there is one", (r is not False) == (want is not None))
    if want is not None and r is not False:
        g.ensure("values", set(r) == set(want) and all(same(r[k], want[k]) for k in want))
        g.ensure("only its variables", set(r) == variables(p))
        g.ensure("gives the data", same(fill(p, r), d))
    g.ensure("is_match", g.fn(K + "is_match")(p, d) == (want is not None))


@contract(P, covers=[K + "pattern_match"], secs=60, runs=600)
def framed(g):
    """Bindings given are kept and obeyed; a failed frame stays failed."""
    p = pair(g, "p", 1)
    d = datum(g, "d", p)
    b = leaf(g, "b")
    frame = {"?x": b}
    f = g.fn(K + "pattern_match")
    r = f(p, d, dict(frame))
    want = oracle(p, d, frame)
    g.ensure("obeyed", (r is not False) == (want is not None))
    if r is not False:
        g.ensure("kept", same(r["?x"], b))
    g.ensure("failed stays failed", f(p, d, False) is False)


@contract(P, covers=["tensormethod.core.IndexedField.pmatch_data"], mode="conc", runs=300)
def field_data(g):
    """What a field is matched by tells apart fields that differ in label, indices,
    charges, statistics, derivatives or conjugation, and no others; a pattern with
    variables in place of its parts finds those parts."""
    I = g.fn("tensormethod.core.IndexedField")

    def make(n):
        c = [("y", g.pick("y" + n, [0, 1])), ("3b", g.pick("b" + n, [0, 2]))]
        if g.bool("order" + n):
            c.reverse()
        conj = g.bool("conj" + n)
        return I(g.pick("label" + n, ["X", "X", "Y"]) + "†" * conj, g.pick("ix" + n, ["i0", "i0", "i1", "c0 i0"]), charges=dict(c), is_conj=conj,
                 comm=g.pick("comm" + n, [0, 0, 1]), derivs=g.pick("d" + n, [0, 0, 1]), latex="x", stripped=None)

    a, b = make("a"), make("b")
    if g.bool("same"):
        b = I(a.label, a.index_labels, charges=dict(reversed(list(a.charges.items()))), is_conj=a.is_conj, comm=a.comm, derivs=a.derivs, latex="y")
    same = (a.label, a.index_labels, a.y, a.charges["3b"], a.comm, a.derivs, a.is_conj) == (b.label, b.index_labels, b.y, b.charges["3b"], b.comm, b.derivs, b.is_conj)
    g.ensure("tells apart", (a.pmatch_data == b.pmatch_data) == same)
    d = a.pmatch_data
    r = g.fn(K + "pmatch")(("?label", "?ix", "?charges", "?comm", "?derivs", "?conj"), d)
    g.ensure("six parts", r is not False and len(d) == 6)
    if not r:
        return
    env = {k[1:]: v for k, v in r.items()}
    g.ensure("parts", env["label"] == a.label and dict(env["charges"]) == a.charges and env["derivs"] == a.derivs and env["conj"] == a.is_conj)
    g.ensure("indices", [i for _, t in env["ix"] for i in t] == sorted(a.indices, key=lambda i: ["Undotted", "Dotted", "Colour", "Isospin", "Generation"].index(i.index_type)))
