"""Operators as numbers: components in a prime field, group elements of SL(2), SL(3).

An independent oracle for 'transforms as a singlet' and for linear independence;
used on real operators in the bounded parts only."""

import itertools
import random

import numpy as np

PR = 32749
DIM = {"Undotted": 2, "Dotted": 2, "Colour": 3, "Isospin": 2}
EPS2 = np.array([[0, 1], [PR - 1, 0]], dtype=np.int64)
EPS3 = np.zeros((3, 3, 3), dtype=np.int64)
for _p in itertools.permutations(range(3)):
    _s = 1
    for _i in range(3):
        for _j in range(_i):
            if _p[_j] > _p[_i]:
                _s = -_s
    EPS3[_p] = _s % PR


ONLY = [None]


def slots(t):
    """(type, is_up, name) of each index, generation indices left out."""
    return [x for x in _slots(t) if ONLY[0] is None or x[0] in ONLY[0]]


def _slots(t):
    return [(i.tensor_index_type.args[0].name if not hasattr(i, "index_type") else i.index_type, bool(i.is_up), i.args[0] if isinstance(i.args[0], str) else i.args[0].name)
            for i in t.get_indices() if str(i.tensor_index_type) != "Generation"]


def well_formed(op):
    """Problems with the index structure of a product that should be a singlet."""
    seen = {}
    for t in op.tensors:
        for ty, up, nm in slots(t):
            seen.setdefault((ty, nm), []).append(up)
    return [k for k, v in seen.items() if sorted(v) != [False, True]]


def kind(t):
    s = str(t)
    if s.startswith("Eps") or s.startswith("metric"):
        return "eps"
    if s.startswith("KD"):
        return "delta"
    return "field"


def component(rng, idx):
    """Random components: symmetric in indices of one type and position, and
    traceless between upper and lower colour (when there is one of each)."""
    shape = tuple(DIM[ty] for ty, _, _ in idx)
    a = np.zeros(shape, dtype=np.int64)
    groups = {}
    for k, (ty, up, _) in enumerate(idx):
        groups.setdefault((ty, up), []).append(k)
    vals = {}
    for ix in itertools.product(*[range(n) for n in shape]):
        key = tuple(tuple(sorted(ix[k] for k in g)) for g in groups.values())
        if key not in vals:
            vals[key] = rng.randrange(PR)
        a[ix] = vals[key]
    up, dn = groups.get(("Colour", True), []), groups.get(("Colour", False), [])
    if len(up) == 1 and len(dn) == 1:
        tr = np.trace(a, axis1=up[0], axis2=dn[0]) % PR
        inv3 = pow(3, -1, PR)
        b = np.moveaxis(a, (up[0], dn[0]), (0, 1)).copy()
        for k in range(3):
            b[k, k] = (b[k, k] - inv3 * tr) % PR
        a = np.moveaxis(b, (0, 1), (up[0], dn[0]))
    return a % PR


def sl(rng, n):
    m = np.eye(n, dtype=np.int64)
    for _ in range(6):
        i, j = rng.sample(range(n), 2)
        e = np.eye(n, dtype=np.int64)
        e[i, j] = rng.randrange(PR)
        m = m.dot(e) % PR
    return m


def inverse(m):
    n = len(m)
    a = np.concatenate([m, np.eye(n, dtype=np.int64)], 1) % PR
    for c in range(n):
        p = next(r for r in range(c, n) if a[r, c])
        a[[c, p]] = a[[p, c]]
        a[c] = a[c] * pow(int(a[c, c]), -1, PR) % PR
        for r in range(n):
            if r != c:
                a[r] = (a[r] - a[r, c] * a[c]) % PR
    return a[:, n:]


def group(rng):
    g = {t: sl(rng, n) for t, n in DIM.items()}
    return {(t, True): m for t, m in g.items()} | {(t, False): inverse(m).T for t, m in g.items()}


def rotate(a, idx, gr):
    for k, (ty, up, _) in enumerate(idx):
        a = np.moveaxis(np.tensordot(gr[(ty, up)], a, axes=(1, k)) % PR, 0, k)
    return a


def evaluate(tensors, comps):
    """Value of a fully contracted product. comps: one array per field, in order."""
    comps = iter(comps)
    val, names = np.array(1, dtype=np.int64), []
    for t in tensors:
        idx = slots(t)
        k = kind(t)
        if k == "eps":
            a = EPS2 if len(idx) == 2 else EPS3
        elif k == "delta":
            a = np.eye(3, dtype=np.int64)
        else:
            a = next(comps)
        nm = [(ty, n) for ty, _, n in idx]
        common = [x for x in names if x in nm]
        val = np.tensordot(val, a, axes=([names.index(x) for x in common], [nm.index(x) for x in common])) % PR
        names = [x for x in names if x not in common] + [x for x in nm if x not in common]
    assert not names, names
    return int(val)


def is_invariant(op, rng, tries=2):
    fs = [t for t in op.tensors if kind(t) == "field"]
    for _ in range(tries):
        c = [component(rng, slots(f)) for f in fs]
        gr = group(rng)
        if evaluate(op.tensors, c) != evaluate(op.tensors, [rotate(a, slots(f), gr) for a, f in zip(c, fs)]):
            return False
    return True


def rank(rows):
    rows = [list(r) for r in rows]
    r = 0
    n = len(rows[0]) if rows else 0
    for c in range(n):
        p = next((k for k in range(r, len(rows)) if rows[k][c] % PR), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        inv = pow(rows[r][c], -1, PR)
        rows[r] = [x * inv % PR for x in rows[r]]
        for k in range(len(rows)):
            if k != r and rows[k][c]:
                f = rows[k][c]
                rows[k] = [(x - f * y) % PR for x, y in zip(rows[k], rows[r])]
        r += 1
    return r


def span_rank(ops, rng, key=lambda f: str(f.args[0].args[0])):
    """Rank of a list of operators in the same fields (told apart by label)."""
    samples = []
    fs0 = [t for t in ops[0].tensors if kind(t) == "field"]
    for _ in range(len(ops) + 8):
        samples.append({key(f): component(rng, slots(f)) for f in fs0})
    return rank([[evaluate(op.tensors, [s[key(t)] for t in op.tensors if kind(t) == "field"]) for s in samples] for op in ops])


def _perms(n):
    out = []
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        out.append((p, s))
    return out


def images(op, comps, comm):
    """Values under every assignment of the copies of each field to its slots; for a
    label in comm, summed over the assignments, with signs where comm says so."""
    order = [t.label for t in op.tensors if kind(t) == "field"]
    labels = sorted(set(order))
    loose = [l for l in labels if l not in comm]
    tight = [l for l in labels if l in comm]
    out = []
    for lp in itertools.product(*[_perms(order.count(l)) for l in loose]):
        total = 0
        for tp in itertools.product(*[_perms(order.count(l)) for l in tight]):
            sign, its = 1, {}
            for l, (p, s) in zip(loose + tight, lp + tp):
                if l in comm and comm[l]:
                    sign *= s
                its[l] = iter([comps[l][k] for k in p])
            total += sign * evaluate(op.tensors, [next(its[l]) for l in order])
        out.append(total % PR)
    return out


def symmetrised(op, comps, comm):
    return images(op, comps, comm)[0]


def draw(op, rng):
    comps = {}
    for t in op.tensors:
        if kind(t) == "field":
            comps.setdefault(t.label, []).append(component(rng, slots(t)))
    return comps


class Ends:
    """What is joined to the free indices of a product: symmetric in those of one type."""

    label = "rest"

    def __init__(self, idx):
        self.idx = [-i for i in idx]

    def get_indices(self):
        return self.idx

    def __str__(self):
        return "rest"


class Joined:
    def __init__(self, tensors):
        self.tensors = tensors


def vanishes(tensors, rng, free=()):
    """Whether a product of tensors is zero, copies of a field without generation index
    being the same; what remains free is joined to something symmetric."""
    ts = list(tensors) + ([Ends(free)] if free else [])
    comm = {}
    for t in tensors:
        if kind(t) == "field" and not any(str(i.tensor_index_type) == "Generation" for i in t.get_indices()):
            comm[t.label] = int((int(t.dynkin[0]) + int(t.dynkin[1])) % 2)
    op = Joined(ts)
    return not any(any(v % PR for v in images(op, draw(op, rng), comm)) for _ in range(4))


def told(tensors):
    """Whether sympy's canonical form can be relied on to find that a product vanishes:
    no copies of a field that carries colour and another index."""
    seen = set()
    for t in tensors:
        if kind(t) == "field":
            ty = {x[0] for x in _slots(t)}
            if t.label in seen and "Colour" in ty and len(_slots(t)) > 1:
                return False
            seen.add(t.label)
    return True
