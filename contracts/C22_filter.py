"""The model database: filtering by neutrino mass or dimension, and ordering."""

from vx.harness import contract

LEVEL = "proof"
P = "C22"
K = "database.database."
D = K + "ModelDatabase."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "completions.operators", "database.utils", "database.closures", "database.export", "database.database")
ASSUMES = (
    "model numbers are positive (C21: products of primes); a model contains another exactly when its number is a multiple (C21)",
    "the scale of an operator is the largest of its estimates; the estimates themselves are assumed here",
)


class M:
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)


class Counts:
    """Stands for the table of rejection counts."""

    def __init__(self):
        self.calls = 0

    def __getitem__(self, i):
        return self

    def __setitem__(self, i, v):
        self.calls += 1

    def __add__(self, o):
        return self

    __iadd__ = __add__


def empty(g, **kw):
    return g.fn(K + "ModelDatabase")("", data={}, **kw)


def below(g):
    """Operators '2' and '3' with any number of models, '1' to sieve with."""
    num = {n: g.ufun("num" + n, "int", lo=1) for n in "23"}
    seqs = {n: g.seq("models" + n, lambda k, n=n: M(k, num=num[n](k))) for n in "23"}
    sieve = M("s", num=g.int("sieve", 1, None if g.symbolic else 6))
    db = empty(g, philosophy=g.pick("philosophy", ["democratic", "stringent"]))
    db.model_number = lambda m: m.num
    db.data = {"1": [sieve], "2": seqs["2"], "3": seqs["3"]}
    return db, seqs, sieve


@contract(P, covers=[D + "filter_model_by_mass"], secs=60, runs=300)
def by_mass_any_size(g):
    """One model removes, from the operators of strictly smaller scale and no others,
    exactly the models that contain it; any number of models, any scales."""
    db, seqs, sieve = below(g)
    db.scale_dict = {n: g.real("scale" + n) for n in "123"}
    db.filter_data = Counts()
    out = lambda m: m.num % sieve.num != 0
    for n in "23":
        g.loop(":filter_model_by_mass", g.collect(lambda k, n=n: seqs[n].at(k), lambda k, n=n: out(seqs[n].at(k))), g.free(db.filter_data), over=seqs[n])
    db.filter_model_by_mass("1", sieve)
    for n in "23":
        if bool(db.scale_dict[n] < db.scale_dict["1"]):
            g.each("those that contain it", db.data[n], seqs[n], p=out)
        else:
            g.ensure("same or larger scale left alone", db.data[n] is seqs[n])
    g.ensure("own operator left alone", db.data["1"] == [sieve] and list(db.data) == ["1", "2", "3"])


@contract(P, covers=[D + "filter_model_by_dimension"], secs=60, runs=300)
def by_dimension_any_size(g):
    """One model removes, from the operators of strictly larger dimension and no others,
    exactly the models that contain it; any number of models, any dimensions."""
    db, seqs, sieve = below(g)
    dim = {n: g.int("dim" + n, 5, 11) for n in "123"}
    ops = g.mod("completions")
    db.filter_data = Counts()
    out = lambda m: m.num % sieve.num != 0
    for n in "23":
        g.loop(":filter_model_by_dimension", g.collect(lambda k, n=n: seqs[n].at(k), lambda k, n=n: out(seqs[n].at(k))), g.free(db.filter_data), over=seqs[n])
    old = ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS
    ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS = {n: M(n, mass_dimension=dim[n]) for n in "13"}, {"2": M("2", mass_dimension=dim["2"])}
    try:
        db.filter_model_by_dimension("1", sieve)
    finally:
        ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS = old
    for n in "23":
        if bool(dim[n] > dim["1"]):
            g.each("those that contain it", db.data[n], seqs[n], p=out)
        else:
            g.ensure("same or smaller dimension left alone", db.data[n] is seqs[n])
    g.ensure("own operator left alone", db.data["1"] == [sieve] and list(db.data) == ["1", "2", "3"])


@contract(P, covers=[D + "filter_one_loop_weinberg"], secs=60, runs=300)
def one_loop(g):
    """Below the one-loop scale, exactly the models containing none of the given ones
    are kept; the others are left alone."""
    import math

    num = g.ufun("num", "int", lo=1)
    v = g.seq("models", lambda k: M(k, num=num(k)))
    db = empty(g)
    db.democratic_model_number = lambda m: m.num
    db.data = {"1": v}
    scale = g.real("scale")
    db.scale_dict = {"1": scale}
    ns = [g.int(f"n{k}", 1, None if g.symbolic else 6) for k in range(g.pick("n", [1, 2, 3, 0], quick=3))]
    keep = lambda m: g.all([m.num % n != 0 for n in ns])
    g.loop(":filter_one_loop_weinberg", g.collect(lambda k: v.at(k), lambda k: keep(v.at(k))))
    db.filter_one_loop_weinberg(ns)
    if bool(scale < 605520000000.0 / (16 * math.pi ** 2)):
        g.each("containing none", db.data["1"], v, p=keep)
    else:
        g.ensure("large scale left alone", db.data["1"] is v)


NUMS = [2, 3, 5, 6, 10, 15, 30, 4]


def small(g, nops, nmod):
    """A whole database: operators with up to nmod models of given numbers."""
    db = empty(g, criterion=g.pick("criterion", ["mass", "dimension"]))
    db.model_number = lambda m: m.num
    data = {}
    for k in range(nops):
        data[str(k)] = [M((k, j), num=g.pick(f"num{k}.{j}", NUMS, quick=4 if g.symbolic else None)) for j in range(g.pick(f"n{k}", range(nmod + 1)))]
    db.data = data
    return db, {k: list(v) for k, v in data.items()}


def keep(data, stronger):
    """Models that contain no model of an operator that precedes theirs."""
    return {k: [m for m in v if not any(m.num % o.num == 0 for p, w in data.items() if stronger(p, k) for o in w)] for k, v in data.items()}


@contract(P, covers=[D + "filter", D + "filter_by_mass", D + "filter_models_by_mass", D + "filter_by_dimension", D + "filter_models_by_dimension"], secs=120, runs=500)
def whole(g):
    """Filtering a database keeps exactly the models that contain no model of an operator
    with a larger scale (smaller dimension), whatever the order of the operators."""
    db, before = small(g, 3 if not g.symbolic else 2, 1 if g.symbolic else 3)
    val = {k: g.int("v" + k, 5, 8) for k in before}
    db.scale_dict = dict(val)
    ops = g.mod("completions")
    old = ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS
    ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS = {k: M(k, mass_dimension=v) for k, v in val.items()}, {}
    import numpy as np

    db.filter_data = np.zeros([len(before)] * 2)
    mass = db.is_mass
    try:
        db.filter()
        want = keep(before, (lambda p, k: bool(val[p] > val[k])) if mass else (lambda p, k: bool(val[p] < val[k])))
        g.ensure("exactly those", list(db.data) == list(want) and all(len(db.data[k]) == len(v) and all(a is b for a, b in zip(db.data[k], v)) for k, v in want.items()))
        db.filter()
        g.ensure("twice is once", all(list(db.data[k]) == v for k, v in want.items()))
    finally:
        ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS = old


@contract(P, covers=[D + "order", D + "order_by_mass", D + "order_by_dimension", D + "filter"], secs=90, runs=300)
def ordered(g):
    """Ordering keeps every operator's models and puts the operators by decreasing scale
    (each the largest of its estimates), or increasing dimension; filtering an unordered
    database orders it first."""
    n = 3 if g.symbolic else 5
    db = empty(g, criterion=g.pick("criterion", ["mass", "dimension"]))
    db.model_number = lambda m: m.num
    data = {str(k): [M(k, num=1 + k)] for k in range(n)}
    db.data = dict(data)
    est = {str(k): [g.int(f"e{k}", 1, 4)] + ([g.int(f"f{k}", 1, 4)] if k == 0 else []) for k in range(n + 1)}
    dim = {str(k): g.int(f"dim{k}", 5, 7) if not db.is_mass else 5 for k in range(n + 1)}
    ops, pkg = g.mod("completions"), g.mod("database")
    old = ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS, pkg.neutrino_mass_estimate, pkg.numerical_np_scale_estimate
    ops.EFF_OPERATORS = {k: M(k, mass_dimension=dim[k]) for k in est if int(k) % 2}
    ops.DERIV_EFF_OPERATORS = {k: M(k, mass_dimension=dim[k]) for k in est if not int(k) % 2}
    pkg.neutrino_mass_estimate = lambda op: est[op.k]
    pkg.numerical_np_scale_estimate = lambda e: e
    try:
        db.order()
    finally:
        ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS, pkg.neutrino_mass_estimate, pkg.numerical_np_scale_estimate = old
    g.ensure("none lost", sorted(db.data) == sorted(data) and all(db.data[k] is v for k, v in data.items()))
    ks = list(db.data)
    g.ensure("ordered", db.is_ordered is True)
    if db.is_mass:
        top = {k: est[k][0] if len(est[k]) == 1 or bool(est[k][0] >= est[k][1]) else est[k][1] for k in data}
        g.ensure("scales", sorted(db.scale_dict) == sorted(data) and g.all([db.scale_dict[k] == top[k] for k in data]))
        g.ensure("decreasing", g.all([top[a] >= top[b] for a, b in zip(ks, ks[1:])]))
    else:
        g.ensure("increasing", g.all([dim[a] <= dim[b] for a, b in zip(ks, ks[1:])]))


@contract(P, covers=[D + "process", D + "filter", D + "order_by_mass", D + "fill_scale_dict"], mode="conc", exhaustive=True, runs=30, gsecs=60)
def real(g):
    """The whole processing, or removing equals and filtering, on real operators and completions: no model left contains
    one of an operator with a larger scale (smaller dimension); nothing else is lost."""
    ex = g.fn("database.export.export_completion")
    eff = g.fn("completions.operators.EFF_OPERATORS")
    oc, cl = g.fn("completions.completions.operator_completions"), g.fn("completions.completions.clean_completions")
    import math

    LC = g.fn(K + "LazyCompletion")
    st = real.__dict__
    key = "c" + str(id(g.world))
    if key not in st:
        st[key] = {n: [ex(c) for c in oc(eff[n])] for n in ("1", "2", "3a", "3b", "4a", "5a", "8")[: 7 if g.thorough else 6] if n != "5a" or g.thorough}
    data = {k: [eval(s, dict(vars(g.mod("database.database")))) for s in v] for k, v in st[key].items()}
    ks = list(data)
    if g.pick("order", [0, 1]):
        ks.reverse()
    crit, phil = g.pick("criterion", ["mass", "dimension"]), g.pick("philosophy", ["democratic", "stringent"])
    db = g.fn(K + "ModelDatabase")("", data={k: data[k] for k in ks}, criterion=crit, philosophy=phil)
    see = g.pick("seesaws", [False, True])
    if see or g.pick("steps", [0, 1]):
        db.process(filter_seesaws=see)
    else:
        db.remove_equivalent_models()
        db.is_ordered = False
        db.filter()
    val = {k: db.scale_dict[k] if crit == "mass" else -eff[k].mass_dimension for k in ks}
    num = db.model_number
    kept = [m for m in [(k, m) for k in ks for m in data[k]] if not see or g.fn(K + "ModelDatabase").no_seesaws(m[1])]
    for k in ks:
        want = []
        for q, m in kept:
            if q == k and num(m) not in want and not any(val[p] > val[k] and num(m) % num(o) == 0 for p, o in kept):
                want.append(num(m))
        g.ensure("exactly those", [num(m) for m in db.data[k]] == want)
    vs = [val[k] for k in db.data]
    g.ensure("in order", vs == sorted(vs, reverse=True))


@contract(P, covers=[D + "filter_models_by_mass", D + "filter_models_by_dimension"], mode="conc", runs=60)
def every_model_sieves(g):
    """Every model of an operator is used to filter, once, however many there are."""
    db = empty(g)
    n = g.int("n", 0, 400)
    db.data = {"0": [M(-1)], "1": [M(k) for k in range(n)], "2": [M(-2)]}
    seen = []
    f = lambda op, m, *a, **k: seen.append((op, m.k))
    db.filter_model_by_mass = db.filter_model_by_dimension = f
    (db.filter_models_by_mass if g.bool("mass") else db.filter_models_by_dimension)("1")
    g.ensure("each once", seen == [("1", k) for k in range(n)])


@contract(P, covers=[D + "filter_model_by_mass", D + "filter_model_by_dimension"], secs=60, runs=300)
def counted(g):
    """The table of rejections says, for the sieving operator and the one sieved in their
    order in the database, which part of the models was rejected."""
    import numpy as np

    mass = g.bool("mass")
    db = empty(g)
    order = g.pick("order", ["012", "120", "210"])
    many = not g.symbolic or g.thorough
    nums = {k: [g.pick(f"num{k}.{j}", [2, 3, 6] if many else [2, 3]) for j in range(g.pick("n" + k, [0, 1, 2] if many else [0, 2]))] for k in "12"}
    db.model_number = lambda m: m.num
    sieve = M("s", num=g.pick("sieve", [2, 6]))
    data = {"0": [sieve], **{k: [M((k, j), num=v) for j, v in enumerate(nums[k])] for k in "12"}}
    db.data = {k: data[k] for k in order}
    val = {k: g.int("v" + k, 1, 3) for k in order}
    db.scale_dict = dict(val)
    db.filter_data = np.zeros([3, 3])
    ops = g.mod("completions")
    old = ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS
    ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS = {k: M(k, mass_dimension=val[k]) for k in order}, {}
    try:
        if mass:
            keep_ = g.pick("keep", [True, False])
            db.filter_model_by_mass("0", sieve, keep_filter_data=keep_)
        else:
            keep_ = True
            db.filter_model_by_dimension("0", sieve)
    finally:
        ops.EFF_OPERATORS, ops.DERIV_EFF_OPERATORS = old
    for i, a in enumerate(order):
        for j, b in enumerate(order):
            want = 0
            if keep_ and a == "0" and b != "0" and bool(val[b] < val[a] if mass else val[b] > val[a]) and nums[b]:
                want = sum(v % sieve.num == 0 for v in nums[b]) / len(nums[b])
            g.ensure("part rejected", abs(db.filter_data[i][j] - want) < 1e-9)


@contract(P, covers=[D + "fill_scale_dict"], secs=60, runs=300)
def scales(g):
    """The scale of each operator is the largest of its estimates, and its symbolic scale
    an estimate that gives it."""
    pkg, comp = g.mod("database"), g.mod("completions")
    n = {k: g.pick("n" + k, [1, 2, 3]) for k in "ab"}
    est = {k: [M((k, j), scale=g.int(f"{k}{j}", 1)) for j in range(n[k])] for k in n}
    old = comp.EFF_OPERATORS, comp.DERIV_EFF_OPERATORS, pkg.neutrino_mass_estimate, pkg.numerical_np_scale_estimate
    comp.EFF_OPERATORS, comp.DERIV_EFF_OPERATORS = {"a": M("a")}, {"b": M("b")}
    pkg.neutrino_mass_estimate = lambda op: est[op.k]
    pkg.numerical_np_scale_estimate = lambda e: e.scale
    db = empty(g)
    try:
        db.fill_scale_dict()
    finally:
        comp.EFF_OPERATORS, comp.DERIV_EFF_OPERATORS, pkg.neutrino_mass_estimate, pkg.numerical_np_scale_estimate = old
    g.ensure("every operator", sorted(db.scale_dict) == ["a", "b"] == sorted(db.symbolic_scale_dict))
    for k in "ab":
        g.ensure("largest", g.all([db.scale_dict[k] >= e.scale for e in est[k]]))
        g.ensure("its estimate", any(db.symbolic_scale_dict[k] is e for e in est[k]) and db.symbolic_scale_dict[k].scale == db.scale_dict[k])
