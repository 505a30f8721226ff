"""Independent oracle for tensor products of SU(2) and SU(3) irreps (Dynkin labels)."""

from collections import Counter
from functools import lru_cache


def su2(a, b):
    return Counter({k: 1 for k in range(abs(a - b), a + b + 1, 2)})


@lru_cache(None)
def weights3(p, q):
    """Weight multiplicities of (p, q), from Gelfand-Tsetlin patterns."""
    out = Counter()
    l1, l2, l3 = p + q, q, 0
    for m1 in range(l2, l1 + 1):
        for m2 in range(l3, l2 + 1):
            for n in range(m2, m1 + 1):
                w = (n, m1 + m2 - n, l1 + l2 + l3 - m1 - m2)
                out[(w[0] - w[1], w[1] - w[2])] += 1
    return out


@lru_cache(None)
def su3(x, y):
    """Racah-Speiser: reflect highest weight + weights into the dominant chamber."""
    out = Counter()
    for (a, b), n in weights3(*y).items():
        u, v, s = x[0] + a + 1, x[1] + b + 1, n
        while True:
            if u == 0 or v == 0:
                s = 0
                break
            if u < 0:
                u, v, s = -u, v + u, -s
            elif v < 0:
                u, v, s = u + v, -v, -s
            else:
                break
        if s:
            out[(u - 1, v - 1)] += s
    return Counter({k: n for k, n in out.items() if n})


def product(a, b):
    """a, b: 5-tuples of Dynkin labels; Counter of 5-tuples."""
    out = Counter()
    for u, n1 in su2(a[0], b[0]).items():
        for d, n2 in su2(a[1], b[1]).items():
            for c, n3 in su3((a[2], a[3]), (b[2], b[3])).items():
                for i, n4 in su2(a[4], b[4]).items():
                    out[(u, d) + c + (i,)] += n1 * n2 * n3 * n4
    return out


def products(xs):
    out = Counter({tuple(xs[0]): 1})
    for x in xs[1:]:
        nxt = Counter()
        for k, n in out.items():
            for m, c in product(k, tuple(x)).items():
                nxt[m] += n * c
        out = nxt
    return out


def dim(a):
    return (a[0] + 1) * (a[1] + 1) * ((a[2] + 1) * (a[3] + 1) * (a[2] + a[3] + 2) // 2) * (a[4] + 1)
