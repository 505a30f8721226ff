"""The model data frame: related models, completions of rows, dictionaries."""

from vx.harness import contract

LEVEL = "proof"
P = "C23"
K = "database.database."
F = K + "ModelDataFrame."
PRELOAD = ("tensormethod.core", "tensormethod.sm", "completions.core", "completions.completions", "database.utils", "database.closures", "database.export", "database.database")
ASSUMES = ("pandas' selection by a mask and by labels (proof; the bounded contracts use pandas itself)", "unique factorisation; sympy's factorint", "a model contains a field at most once up to conjugation (its number is square-free)")
PRIMES = [2, 3, 5, 7]


def prod(xs):
    out = 1
    for x in xs:
        out *= x
    return out


def content(g, name, primes=PRIMES):
    return [p for p in primes if g.pick(f"{name}.{p}", [0, 1])]


class Column:
    def __init__(self, name, items):
        self.name, self.items = name, items  # [(label, value)]

    def __getitem__(self, label):
        return [v for k, v in self.items if k is label or bool(k == label)][0]

    def __eq__(self, x):
        return Mask([k for k, v in self.items if v == x])

    def __hash__(self):
        return 0


class Mask:
    def __init__(self, index):
        self.index = index


class Loc:
    def __init__(self, labels):
        self.labels = labels

    def __getitem__(self, ls):
        if isinstance(ls, Mask):
            ls = ls.index
        for k in ls:
            if not any(k is l or bool(k == l) for l in self.labels):
                raise KeyError(k)
        return list(ls)


class Frame:
    """Stands for a data frame: columns by name, rows by label."""

    def __init__(self, labels, **cols):
        self.cols = {n: Column(n, list(zip(labels, c))) for n, c in cols.items()}
        self.labels = labels
        self.loc = Loc(labels)
        self.index = labels

    def __getitem__(self, x):
        return self.cols[x] if isinstance(x, str) else x


def wanted(labels, contents, k):
    """Other rows with two or more fields, all among the row's."""
    return sorted(l for l, c in zip(labels, contents) if l != labels[k] and len(c) > 1 and set(c) <= set(contents[k]))


@contract(P, covers=[F + "related_models", "database.utils.subsets"], secs=120, runs=300)
def related(g):
    """The related models of a row are the other rows of two or more fields that are all
    among the row's fields, each once."""
    n = 3 if g.symbolic else 6
    ps = PRIMES[: 3 if g.symbolic and not g.thorough else 4]
    contents = [content(g, f"c{k}", ps) for k in range(n if not g.symbolic else g.pick("n", [n, 1]))]
    labels = [g.int(f"label{k}") for k in range(len(contents))]
    for j in range(len(labels)):
        for i in range(j):
            g.assume(labels[i] != labels[j])
    df = Frame(labels, democratic_num=[prod(c) for c in contents])
    k = 0 if g.symbolic else g.pick("k", range(len(contents)))
    got = g.fn(K + "ModelDataFrame").related_models(df, labels[k])
    want = [j for j, c in enumerate(contents) if j != k and len(c) > 1 and set(c) <= set(contents[k])]
    g.ensure("none twice", len(got) == len(want))
    for j in want:
        g.ensure("all of them", any(x is labels[j] or bool(x == labels[j]) for x in got))


def table(g, contents, terms=None):
    import pandas as pd

    data = {"democratic_num": [prod(c) for c in contents], "stringent_num": [11 * prod(c) for c in contents], "completion": [f"('made', {k})" for k in range(len(contents))]}
    ex = {f"F{p}": p for p in PRIMES}
    tm = {("L", f"F{p}"): p for p in PRIMES}
    DF = g.fn(K + "ModelDataFrame")
    return DF.new(data=pd.DataFrame(data, index=g.index) if g.index else data, exotics=ex, terms=tm), ex, tm


@contract(P, covers=[F + "related_models", F + "new", F + "_constructor"], mode="conc", runs=60)
def related_real(g):
    """The same on pandas, for any row labels; the rows come whole, and the result is a
    model data frame again."""
    contents = [content(g, f"c{k}") for k in range(g.pick("n", range(1, 9)))]
    g.index = g.pick("index", [None, [10 + 3 * k for k in range(len(contents))], [100 - k for k in range(len(contents))], [5000 - 700 * k for k in range(len(contents))], [k * k * 977 - 3000 for k in range(len(contents))]])
    df, ex, tm = table(g, contents)
    labels = list(df.index)
    k = g.pick("k", range(len(contents)))
    r = df.related_models(labels[k])
    g.ensure("exactly those", sorted(r.index) == wanted(labels, contents, k))
    g.ensure("a model data frame", type(r) is g.fn(K + "ModelDataFrame") and list(r.columns) == list(df.columns))
    g.ensure("whole rows", all(tuple(r.loc[i]) == tuple(df.loc[i]) for i in r.index))
    g.ensure("frame kept", list(df.index) == labels and list(df["democratic_num"]) == [prod(c) for c in contents])


@contract(P, covers=[F + "new", F + "completion"], mode="conc", runs=40)
def made(g):
    """The dictionaries lead from each field and term to its number and back, survive
    selection, and a row's completion is the one its text describes."""
    contents = [content(g, f"c{k}") for k in range(g.pick("n", range(1, 5)))]
    g.index = g.pick("index", [None, [10 + 3 * k for k in range(len(contents))]])
    df, ex, tm = table(g, contents)
    for d in (df, df[df["democratic_num"] > 1]):
        g.ensure("fields", d.exotic2int == ex and d.int2exotic == {v: k for k, v in ex.items()} and d.exotics == {**ex, **{v: k for k, v in ex.items()}})
        g.ensure("terms", d.term2int == tm and d.int2term == {v: k for k, v in tm.items()} and d.terms == {**tm, **{v: k for k, v in tm.items()}})
    g.ensure("completion", all(df.completion(l) == ("made", k) for k, l in enumerate(df.index)))
