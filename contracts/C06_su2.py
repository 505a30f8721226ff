"""Contraction of SU(2) indices."""

import functools
import itertools
import math
import random

from contracts import numeric
from contracts.lib import raises, stat
from vx.harness import contract

LEVEL = "proof"
P = "C06"
K = "tensormethod.contract."
M = "tensormethod.core."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "tensormethod.contract")
ASSUMES = (
    "interface of sympy's TensorIndex/Tensor/TensMul as in vx/ghost_tensor.py (free indices, products)",
    "indices of the two factors have different names",
)
POS = {"u": 0, "d": 1, "i": 4}
NAME = {"u": "Undotted", "d": "Dotted", "i": "Isospin"}


def tensor_of(g, name, shape, distinct, comm=None):
    """A field called on indices of the given shape, with free labels."""
    F = g.fn(M + "Field")
    dk = [shape.count("u"), shape.count("d"), shape.count("c"), shape.count("k"), shape.count("i")]
    labs = []
    for k, t in enumerate(sorted(shape, key="udcki".index)):
        r = g.text(f"{name}{k}", only="0123456789", lo=1)
        ty = "c" if t == "k" else t
        for ty2, r2 in distinct:
            if ty2 == ty:
                g.assume(g.neg(r == r2))
        distinct.append((ty, r))
        labs.append(("-" if t == "k" else "") + ty + r)
    f = F(name, "".join(map(str, dk)), charges={"y": 0}, comm=stat(g, dk), latex="x")
    return f(g.join(" ", labs))


def typed(op_indices, t):
    return [i for i in op_indices if i.index_type == NAME[t]]


def has(xs, i):
    return any(bool(x == i) for x in xs)


def check_pairs(g, eps, left, right):
    """Each factor pairs one index of left with one of right, each used once."""
    used = []
    for e in eps:
        g.ensure("two lowered indices", len(e.indices) == 2 and not any(bool(i.is_up) for i in e.indices))
        a, b = [-i for i in e.indices]
        g.ensure("one from each", (has(left, a) and has(right, b)) or (has(left, b) and has(right, a)))
        g.ensure("not used before", not has(used, a) and not has(used, b))
        used += [a, b]
    return used


def factors(x):
    if isinstance(x, int):
        return []
    return list(x.args) if type(x).__name__ == "TensMul" else [x]


@contract(P, covers=[K + "contract_su2_helper"], world="ghost", secs=60)
def helper(g):
    """For tensors with m and n indices of a type and a target of k: refused when k is
    too large or of the wrong parity; otherwise the results are products of
    (m+n-k)/2 epsilons, each joining an index of one factor to one of the other,
    every index at most once; there is one exactly when |m-n| <= k."""
    t = g.pick("type", ["i", "u", "d"]) if g.thorough else g.pick("type", ["i", "d"])
    m, n = g.pick("m", [0, 1, 2]), g.pick("n", [0, 1, 2])
    k = g.pick("k", [0, 1, 2, 3, 4])
    seen = []
    l, r = tensor_of(g, "A", t * m + "c", seen), tensor_of(g, "B", t * n, seen)
    helper = g.fn(K + "contract_su2_helper")
    out = k if g.bool("as int") else "".join(str(k) if p == POS[t] else "7" for p in range(5))
    if k > m + n or (m + n - k) % 2:
        g.expect("refused", AssertionError, helper, l, r, out, t)
        return
    res = helper(l, r, out, t)
    if k == m + n:
        g.ensure("nothing to contract", len(res) == 1 and res[0] == 1)
        return
    g.ensure("a result exactly when possible", (len(res) > 0) == (abs(m - n) <= k))
    pairs = []
    for x in res:
        fs = factors(x)
        g.ensure("number of epsilons", len(fs) == (m + n - k) // 2)
        check_pairs(g, fs, typed(l.get_indices(), t), typed(r.get_indices(), t))
        pairs.append(fs)
    # every choice of partners for the contracted indices of the shorter one
    if m and n and res:
        lo, hi = sorted([typed(l.get_indices(), t), typed(r.get_indices(), t)], key=len)
        for j in hi:
            g.ensure("every partner", any(any(has([-i for i in e.indices], j) for e in fs) for fs in pairs))


@contract(P, covers=[K + "contract_su2", M + "Operator.__new__", M + "IndexedField.__mul__", M + "Operator.__mul__", M + "normalise_operator_input"], world="ghost", secs=60)
def contract_to(g):
    """contract_su2(left, right, out): every result contains both factors, its free
    undotted, dotted and isospin indices number what out says, they are indices of
    the factors, and all colour indices are still free; ignored types are left alone."""
    l_, r_, outs = g.pick("case", [("ui", "ui", ["00000", "20000", "00002", "20002"]), ("uci", "dk", ["11000", "11001"]),
                                   ("ii", "i", ["00001", "00003"]), ("ii", "ii", ["00000", "00002"]), ("udi", "d", ["10001", "12001"]), ("u", "", ["10000"])])
    out = g.pick("out", outs[:4])
    ignore = g.pick("ignore", [[], ["i"], ["u", "d"]])
    seen = []
    l, r = tensor_of(g, "A", l_, seen), tensor_of(g, "B", r_, seen)
    before = l.get_indices() + r.get_indices()
    try:
        res = g.fn(K + "contract_su2")(l, r, out, ignore=ignore)
    except AssertionError:
        g.ensure("refused only when impossible", any(
            t not in ignore and (int(out[POS[t]]) > (l_ + r_).count(t) or ((l_ + r_).count(t) - int(out[POS[t]])) % 2) for t in "udi"))
        return
    for op in res:
        free = op.get_free_indices()
        for t in "udi":
            want = (l_ + r_).count(t) if t in ignore else int(out[POS[t]])
            g.ensure(f"free {t}", len(typed(free, t)) == want)
        g.ensure("no new free index", all(has(before, i) for i in free))
        g.ensure("colour untouched", len([i for i in free if i.index_type == "Colour"]) == (l_ + r_).count("c") + (l_ + r_).count("k"))
        g.ensure("both factors", [f.label for f in op.indexed_fields] == ["A", "B"])


@contract(P, covers=[M + "normalise_operator_input", M + "Operator.__new__", M + "Operator.__mul__", M + "IndexedField.__mul__"], mode="conc", runs=200)
def products(g):
    """A product has exactly the factors multiplied, however they are grouped: fields,
    epsilons, and products of epsilons; the fields come before the epsilons."""
    F, eps, delta = g.fn(M + "Field"), g.fn(M + "eps"), g.fn(M + "delta")
    n = g.int("fields", 1, 3)
    fs = [F("X", "20111", charges={"y": 1}, latex="x")(f"u{2 * k} u{2 * k + 1} c{k} -c{9 + k} i{k}") for k in range(n)]
    pool = [eps(f"-u{2 * k} -u{2 * k + 3}") for k in range(n)] + [delta(f"c{9 + k} -c{k + 1}") for k in range(n)] + [eps(f"-i{k} -i{k + 20}") for k in range(n)]
    k, parts = 0, []
    while k < len(pool):
        m = g.int(f"size{k}", 1, 5)
        p = pool[k]
        for e in pool[k + 1:k + m]:
            p = p * e
        parts.append(p)
        k += m
    parts = fs + parts
    k = g.int("group", 1, len(fs))  # the factors before and the rest, the latter perhaps multiplied first
    ops = [functools.reduce(lambda x, y: x * y, parts[:k])]
    ops += [functools.reduce(lambda x, y: x * y, parts[k:])] if k < len(fs) and g.bool("grouped") else parts[k:]
    op = functools.reduce(lambda x, y: x * y, ops)
    g.ensure("fields", [f.index_labels for f in op.indexed_fields] == [f.index_labels for f in fs])
    g.ensure("epsilons", sorted(map(str, op.epsilons)) == sorted(map(str, pool)))
    g.ensure("first the fields", op.tensors[:n] == op.indexed_fields)


@contract(P, covers=[K + "su2_singlets_type", K + "epsilon_combos"], world="ghost", secs=60, hash=True)
def singlets_of_type(g):
    """All ways of pairing up the free indices of one type: with 2 or 4 of them each
    of the 1 or 3 pairings exactly once, nothing of that type left, other types left
    alone; an odd number is refused."""
    t = g.pick("type", ["u", "d", "i"])
    n = g.pick("n", [0, 1, 2, 3, 4])
    seen = []
    other = {"u": "d", "d": "i", "i": "u"}[t]
    l = tensor_of(g, "A", t * (n - n // 2) + other + "c", seen)
    r = tensor_of(g, "B", t * (n // 2) + "k", seen)
    op = l * r
    f = g.fn(K + "su2_singlets_type")
    if n % 2:
        g.expect("odd number refused", ValueError, f, op, index_type=t)
        return
    res = f(op, index_type=t)
    g.ensure("number of pairings", len(res) == {0: 1, 2: 1, 4: 3}[n])
    seen_pairs = []
    for o in res:
        free = o.get_free_indices()
        g.ensure("none left", not typed(free, t))
        g.ensure("others free", len(free) == 3)
        eps = [x for x in o.tensors if type(x).__name__ != "IndexedField"]
        g.ensure("epsilons", len(eps) == n // 2)
        if n == 4:
            i0 = typed(op.get_free_indices(), t)[0]
            e = [x for x in eps if has([-i for i in x.indices], i0)]
            g.ensure("first index once", len(e) == 1)
            j = [-i for i in e[0].indices if not bool(-i == i0)]
            g.ensure("another partner", len(j) == 1 and not has(seen_pairs, j[0]))
            seen_pairs += j


def random_tensors(g, names="AB", opts=("10001", "10010", "10101", "01001", "00001", "00002", "00100", "10000", "01010", "11000", "11001", "20000", "00003", "20011")):
    F = g.fn(M + "Field")
    fs = []
    for n in names:
        d = g.pick(n, list(opts))
        f = F(n, d, charges={"y": 0}, comm=stat(g, d))
        fs.append(f.conj if g.bool(n + "conj") else f)
    return fs


@contract(P, covers=[K + "contract_su2", K + "contract_su2_helper"], mode="conc", runs=500, gsecs=40)
def contract_real(g):
    """The same with sympy's tensors: for every irrep of the product, fresh indices,
    and left an operator of two fields or a field."""
    fs = random_tensors(g, "AB" if not g.bool("three") else "ABC")
    prod = g.fn(M + "decompose_product")(*fs)
    p = prod[g.int("irrep", 0, 200) % len(prod)]
    res = g.fn(K + "construct_operators")(p.walked())
    g.ensure("some contraction", len(res) > 0)
    for op in res:
        free = op.free_indices
        for t in "udi":
            g.ensure(f"free {t}", len(typed(free, t)) == p.dynkin_ints[POS[t]])
            eps = [e for e in op.epsilons if e.indices[0].index_type == NAME[t]]
            total = sum(f.dynkin_ints[POS[t]] for f in fs)
            g.ensure(f"epsilons {t}", 2 * len(eps) == total - p.dynkin_ints[POS[t]])
        g.ensure("fields", sorted(f.label for f in op.indexed_fields) == sorted(f.label_with_dagger for f in fs))
        g.ensure("each SU(2) index at most twice, in opposite positions", all(
            sorted(v) == [False, True] for v in _occ(op).values() if len(v) > 1))


def _occ(op):
    seen = {}
    for t in op.tensors:
        for ty, up, nm in numeric.slots(t):
            seen.setdefault((ty, nm), []).append(up)
    return seen


@contract(P, covers=[K + "lorentz_singlets", K + "su2_singlets_type", K + "epsilon_combos"], mode="conc", runs=150, gsecs=30)
def lorentz_real(g):
    """Lorentz singlets: as many as pairings of the undotted times the dotted indices,
    all different, none with a free Lorentz index, each invariant under SL(2) x SL(2)."""
    F = g.fn(M + "Field")
    ds = [g.pick(f"f{k}", ["10000", "01000", "11000", "20000", "02000", "00000"]) for k in range(g.int("n", 2, 4))]
    nu, nd = sum(int(d[0]) for d in ds), sum(int(d[1]) for d in ds)
    g.assume(nu <= 6 and nd <= 6 and nu + nd <= 10)
    op = F("A", ds[0]).fresh_indices()
    for k, d in enumerate(ds[1:]):
        op = op * F("BCD"[k], d).fresh_indices()
    f = g.fn(K + "lorentz_singlets")
    if nu % 2 or nd % 2:
        g.expect("refused", ValueError, f, op)
        return
    res = f(op)
    dfac = lambda n: 1 if n <= 1 else (n - 1) * dfac(n - 2)
    g.ensure("number", len(res) == dfac(nu) * dfac(nd))
    keys = set()
    for o in res:
        g.ensure("contracted", not numeric.well_formed(o))
        keys.add(frozenset(frozenset((i.index_type, str(i)) for i in e.indices) for e in o.epsilons))
    g.ensure("all different", len(keys) == len(res))
    if res:
        g.ensure("invariant", numeric.is_invariant(res[-1], random.Random(1)))


@contract(P, covers=[K + "epsilon_combos"], mode="conc", exhaustive=True)
def all_pairings(g):
    """All ways of pairing up to eight indices, each once."""
    n = g.pick("n", [0, 2, 4, 6, 8])
    got = list(g.fn(K + "epsilon_combos")([f"i{k}" for k in range(n)]))
    want = {0: 1, 2: 1, 4: 3, 6: 15, 8: 105}[n]
    g.ensure("number", len(got) == want and len({frozenset(map(frozenset, c)) for c in got}) == want)
    g.ensure("pairings", all(sorted(x for p in c for x in p) == sorted(f"i{k}" for k in range(n)) and all(len(set(p)) == 2 for p in c) for c in got))


@contract(P, covers=[K + "term_lorentz_singlet"], mode="conc", runs=150)
def term(g):
    """A term is made a Lorentz singlet by joining its first field with the rest in every
    way (as many indices in the first field as in the others); isospin stays as it is."""
    F = g.fn(M + "Field")
    a, b = g.int("u", 0, 3), g.int("d", 0, 2)
    g.assume(a + b > 0)
    rest = [(1, 0)] * a + [(0, 1)] * b
    if g.bool("together"):
        rest = [(a, b)]
    fs = [F("ABCDEF"[k], f"{u}{d}00{g.pick(f'iso{k}', [0, 1])}", latex="x").fresh_indices() for k, (u, d) in enumerate([(a, b), *rest])]
    op = fs[0]
    for f in fs[1:]:
        op = op * f
    g.assume(len(fs) > 1)
    res = g.fn(K + "term_lorentz_singlet")(op)
    g.ensure("number", len(res) == math.factorial(a) * math.factorial(b))
    keys = set()
    for r in res:
        g.ensure("no Lorentz index", not [i for i in r.get_free_indices() if i.index_type in ("Undotted", "Dotted")])
        g.ensure("isospin", len([i for i in r.get_free_indices() if i.index_type == "Isospin"]) == sum(f.dynkin_ints[4] for f in fs))
        g.ensure("fields", sorted(f.label for f in r.fields) == sorted(f.label for f in fs))
        eps = [e for t in r.tensors if type(t).__name__ != "IndexedField" for e in ([t] if hasattr(t, "indices") else t.args)]
        first = set(map(str, fs[0].indices))
        g.ensure("first with the rest", all(len({str(-i) for i in e.indices} & first) == 1 for e in eps))
        keys.add(frozenset(frozenset(map(str, e.indices)) for e in eps))
    g.ensure("all different", len(keys) == len(res))


@contract(P, covers=[K + "construct_operators"], mode="conc", runs=60, gsecs=30)
def no_leak(g):
    """A construction that fails, and earlier constructions, leave later ones alone."""
    fs = random_tensors(g, "AB")
    prod = g.fn(M + "decompose_product")(*fs)
    p = prod[g.int("irrep", 0, 200) % len(prod)]
    co = g.fn(K + "construct_operators")
    shape = lambda ops: sorted(sorted((str(e.indices[0].index_type)) for e in o.epsilons) for o in ops)
    first = shape(co(p.walked()))
    Field = g.fn(M + "Field")
    H = g.fn(M + "History")
    bad = Field("Z", "70000", history=H(fs[0], fs[1]))
    if g.bool("half way"):
        bad = Field("Y", p.dynkin, history=H(bad, fs[0]))
    try:
        co(bad.walked())
        g.assume(False)
    except AssertionError:
        pass
    g.ensure("same again", shape(co(p.walked())) == first)
