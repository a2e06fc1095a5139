"""C30: the entropy and information estimators of
cgpm.utils.entropy_estimators, against their definitions.

The nearest neighbours come from scipy's trees; the expected numbers from
all pairwise distances."""
import math

import numpy as np
from scipy.special import digamma

from vf.spec import unit, bounded

N = 'cgpm.utils.entropy_estimators'


@unit('C30', 'entropy/term', [N + ':elog'])
def _(E):
    p = E.real('p')
    m = E.mod(N)
    v = m.elog(p)
    if p > 0 and p < 1:
        E.ensure_eq('p log p', v, p * E.log(p))
    else:
        E.ensure_eq('nothing', v, 0.)
    E.ensure_eq('0 log 0', m.elog(0.), 0.)
    E.ensure_eq('1 log 1', m.elog(1.), 0.)


def shares(E, name):
    return E.seq(name, lambda k: E.real(name, lo=.01, hi=.99), lo=1)


@unit('C30', 'entropy/probabilities', [N + ':entropyfromprobs',
                                       N + ':elog'])
def _(E):
    """Any number of probabilities in (0, 1)."""
    ps = shares(E, 'p')
    base = E.real('base', lo=1.5, hi=9.)
    E.ensure_eq('the entropy', E.mod(N).entropyfromprobs(ps, base),
                -E.sum(ps, lambda p: p * E.log(p)) / E.log(base))


class Entropy(object):
    """The contract of entropyd as far as its callers need it: a number made
    of the samples, whatever the order of the parts of a joint sample."""

    def __init__(self, E):
        self.E = E
        self.g = [E.func('H%d' % i) for i in range(3)]
        self.b = E.func('unit')

    def __call__(self, s, base=2):
        E = self.E
        if not E.symbolic:
            return entropy(list(s), base)

        def value(e):
            e = e if isinstance(e, tuple) else (e,)
            return self.g[len(e) - 1](sum(e[1:], e[0]))
        return E.sum(s, value) * self.b(base)


def entropy(s, base):
    n = float(len(s))
    return -math.fsum(s.count(v) / n * math.log(s.count(v) / n)
                      for v in set(s)) / math.log(base)


def joint(E, *cols):
    if E.symbolic:
        return E.mapped(lambda i: tuple(c[i] for c in cols),
                        E.indices(E.length(cols[0])))
    return list(zip(*cols))


@unit('C30', 'information/discrete', [N + ':midd', N + ':cmidd'])
def _(E):
    """Mutual information is made of entropies of the joint samples: any
    number of samples."""
    m = E.mod(N)
    n = E.size('n', lo=1)
    if E.symbolic:
        x, y, z = [E.table(c, n, E.func(c)) for c in 'xyz']
    else:
        x, y, z = [[E.int(c, lo=0, hi=3) for _ in range(n)] for c in 'xyz']
    base = E.choice('base', [2, math.e, 7.5])
    H = Entropy(E)
    E.stub(N + ':entropyd', H)
    E.ensure_eq('H(x) + H(y) - H(x, y)', m.midd(x, y, base=base),
                H(x, base) + H(y, base) - H(joint(E, x, y), base))
    E.ensure_eq('H(x, z) + H(y, z) - H(x, y, z) - H(z)',
                m.cmidd(x, y, z, base=base),
                H(joint(E, x, z), base) + H(joint(E, y, z), base)
                - H(joint(E, x, y, z), base) - H(z, base))


@unit('C30', 'information/base', [N + ':midd', N + ':cmidd'])
def _(E):
    """In bits unless asked otherwise."""
    m = E.mod(N)
    n = E.size('n', lo=1)
    if E.symbolic:
        x, y, z = [E.table(c, n, E.func(c)) for c in 'xyz']
    else:
        x, y, z = [[E.int(c, lo=0, hi=3) for _ in range(n)] for c in 'xyz']
    E.stub(N + ':entropyd', Entropy(E))
    E.ensure_eq('mutual information', m.midd(x, y), m.midd(x, y, base=2))
    E.ensure_eq('given a third variable', m.cmidd(x, y, z),
                m.cmidd(x, y, z, base=2))


# --------------------------------------------------------------------------
# Bounded: histograms, and estimates from the nearest neighbours.

@bounded('C30', 'entropy/discrete', [N + ':entropyd', N + ':hist'],
         trials=200, bound='up to 12 samples of up to 5 values of any type')
def _(E):
    m = E.mod(N)
    values = E.choice('values', [[0, 1, 2, 3, 4], ['a', 'b'], [(0, 'a'), (
        1, 'b'), (1, 'a')], [2.5], [None, 0, '0']])
    n = E.int('n', lo=1, hi=13)
    s = [values[E.r.randint(len(values))] for _ in range(n)]
    E.note('samples', s)
    keep = list(s)
    h = list(m.hist(s))
    E.ensure('shares of the values', sorted(h) == sorted(
        s.count(v) / float(n) for v in set(s)))
    base = E.choice('base', [2, math.e, 10])
    E.ensure_eq('entropy', m.entropyd(s, base=base), entropy(s, base))
    E.ensure_eq('in bits', m.entropyd(s), entropy(s, 2))
    E.ensure('the samples are kept', s == keep)


def vectors(E, n, d):
    return [[float(v) for v in E.r.normal(size=d) * 2] for _ in range(n)]


def distance(a, b):
    return max(abs(u - v) for u, v in zip(a, b))


def nearest(p, points, k):
    return sorted(distance(p, q) for q in points)[k]


def continuous(x, k, base):
    n, d = len(x), len(x[0])
    return (digamma(n) - digamma(k) + d * math.log(2)
            + d * math.fsum(math.log(nearest(p, x, k)) for p in x) / n
            ) / math.log(base)


def around(points, radii):
    """Mean digamma of the points strictly within the radii (with itself)."""
    return math.fsum(digamma(sum(distance(p, q) < r - 1e-7 for q in points))
                     for p, r in zip(points, radii)) / len(points)


def glue(*cols):
    return [sum(r, []) for r in zip(*cols)]


@bounded('C30', 'entropy/continuous', [N + ':entropy', N + ':kldiv'],
         trials=120, bound='up to 12 vectors of up to 3 numbers')
def _(E):
    m = E.mod(N)
    n, d = E.int('n', lo=3, hi=13), E.int('d', lo=1, hi=4)
    k = E.int('k', lo=1, hi=min(4, n))
    base = E.choice('base', [2, math.e, 10])
    x = vectors(E, n, d)
    keep = [list(v) for v in x]
    E.note('x', x)
    E.ensure_eq('entropy', m.entropy(x, k, base), continuous(x, k, base),
                tol=1e-5)
    y = vectors(E, E.int('m', lo=5, hi=13), d)
    want = (math.log(len(y)) - math.log(n - 1) + d * math.fsum(
        math.log(nearest(p, y, k - 1)) - math.log(nearest(p, x, k))
        for p in x) / n) / math.log(base)
    E.ensure_eq('divergence', m.kldiv(x, y, k, base), want, tol=1e-5)
    E.ensure('the samples are kept', x == keep)
    E.raises(AssertionError, lambda: m.entropy(x, n, base),
             'more neighbours than samples')
    E.raises(AssertionError, lambda: m.kldiv(x, vectors(E, 6, d + 1), k),
             'vectors of another size')


@bounded('C30', 'information/continuous', [
    N + ':mi', N + ':cmi', N + ':avgdigamma', N + ':zip2'], trials=120,
         bound='up to 12 samples, vectors of up to 2 numbers')
def _(E):
    m = E.mod(N)
    n = E.int('n', lo=4, hi=13)
    k = E.int('k', lo=1, hi=4)
    base = E.choice('base', [2, math.e])
    x, y, z = [vectors(E, n, E.int('d', lo=1, hi=3)) for _ in range(3)]
    E.note('samples', (x, y, z))
    r = [nearest(p, glue(x, y), k) for p in glue(x, y)]
    want = digamma(k) + digamma(n) - around(x, r) - around(y, r)
    E.ensure_eq('mutual information', m.mi(x, y, k, base),
                want / math.log(base), tol=1e-5)
    r = [nearest(p, glue(x, y, z), k) for p in glue(x, y, z)]
    want = digamma(k) + around(z, r) - around(glue(x, z), r) - around(
        glue(y, z), r)
    E.ensure_eq('given a third variable', m.cmi(x, y, z, k, base),
                want / math.log(base), tol=1e-5)
    E.raises(AssertionError, lambda: m.mi(x, y[1:], k),
             'as many samples of each')
    E.raises(AssertionError, lambda: m.mi(x, y, n), 'too few samples')
    E.ensure('joint vectors', m.zip2(x, y, z) == glue(x, y, z))
    c = [v[0] for v in x]
    E.ensure('vectors of one number', [tuple(v) for v in m.vectorize(c)]
             == [(v,) for v in c])


@bounded('C30', 'information/mixed', [N + ':micd'], trials=120,
         bound='up to 14 samples, up to 3 values of the discrete one')
def _(E):
    m = E.mod(N)
    n = E.int('n', lo=5, hi=15)
    k = E.int('k', lo=1, hi=4)
    base = E.choice('base', [2, math.e])
    x = vectors(E, n, E.int('d', lo=1, hi=3))
    y = [E.choice('y', ['a', 'b', 'c']) for _ in range(n)]
    E.note('samples', (x, y))
    all_ = continuous(x, k, base)
    want = all_
    for v in set(y):
        part = [p for p, u in zip(x, y) if u == v]
        want -= len(part) / float(n) * (
            continuous(part, k, base) if len(part) > k else all_)
    E.ensure_eq('mutual information', m.micd(x, y, k, base, warning=False),
                want, tol=1e-5)


@bounded('C30', 'shuffled', [N + ':shuffle_test'], trials=60,
         bound='up to 8 samples, up to 7 shuffles')
def _(E):
    """Each run measures a shuffled copy against what is left alone."""
    m = E.mod(N)
    n, ns = E.int('n', lo=2, hi=9), E.int('ns', lo=1, hi=8)
    x, y = [[float(v) for v in E.r.normal(size=n)] for _ in range(2)]
    z = E.choice('third', [False, list(reversed(y))])
    keep, calls = list(x), []

    def measure(a, b, *c, **kw):
        calls.append((list(a), b, c, kw))
        return float(E.r.normal())
    got = m.shuffle_test(measure, x, y, z, ns=ns, base=3)
    E.ensure('as many runs as asked for', len(got) == len(calls) == ns)
    E.ensure('in order', got == sorted(got))
    E.ensure('x is kept', x == keep)
    for a, b, c, kw in calls:
        E.ensure('a shuffled copy', sorted(a) == sorted(x))
        E.ensure('the others as they are', b is y and (
            c == ((z,) if z else ())) and kw == {'base': 3})
