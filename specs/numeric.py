"""C22: numerical helpers of cgpm.utils.general."""
import math

import numpy as np

from vf.spec import unit, bounded

G = 'cgpm.utils.general'
INF = float('inf')


def gu(E):
    return E.mod(G)


def logs(E, name='a', lo=1):
    """An arbitrary sequence of finite logs."""
    return E.seq(name, lambda k: E.real(name), lo=lo)


@unit('C22', 'logsumexp/finite', [G + ':logsumexp'])
def _(E):
    a = logs(E)
    r = gu(E).logsumexp(a)
    E.ensure_eq('logsumexp is log of the sum of exponentials', r,
                E.log(E.sum(a, E.exp)))


@unit('C22', 'logsumexp/empty', [G + ':logsumexp'])
def _(E):
    E.ensure('logsumexp of nothing is log 0',
             E.is_neginf(gu(E).logsumexp([])))
    x = E.real('x')
    E.ensure_eq('logsumexp of one value', gu(E).logsumexp([x]), x)
    E.ensure_eq('adding log 0 changes nothing',
                gu(E).logsumexp([x, -INF]), x)
    E.ensure('log 0 only', E.is_neginf(gu(E).logsumexp([-INF, -INF])))


@bounded('C22', 'logsumexp/extremes', [G + ':logsumexp',
                                       G + ':logmeanexp'], trials=60,
         bound='up to 6 values among extreme magnitudes')
def _(E):
    n = E.int('n', lo=1, hi=7)
    a = [E.choice('a', [-INF, -1e5, -800., 0., 3., 750., 1e5, E.real('v')])
         for _ in range(n)]
    m = max(a)
    want = m if math.isinf(m) else m + math.log(
        sum(math.exp(x - m) for x in a))
    E.ensure_eq('logsumexp does not over- or underflow',
                gu(E).logsumexp(a), want)
    E.ensure_eq('logmeanexp counts every value',
                gu(E).logmeanexp(a), want - math.log(n))
    b = a + [INF]
    if -INF not in a:
        E.ensure_eq('logsumexp with an infinite term', gu(E).logsumexp(b),
                    INF)
    E.ensure_eq('logmeanexp with an infinite term', gu(E).logmeanexp(b), INF)
    c = a + [float('nan')]
    E.r.shuffle(c)
    E.ensure('nan propagates', math.isnan(gu(E).logsumexp(c)))


@unit('C22', 'logmeanexp', [G + ':logmeanexp', G + ':logsumexp'])
def _(E):
    a = logs(E)
    E.ensure_eq('logmeanexp is log of the mean of exponentials',
                gu(E).logmeanexp(a),
                E.log(E.sum(a, E.exp)) - E.log(E.length(a)))


@unit('C22', 'logmeanexp/empty', [G + ':logmeanexp'])
def _(E):
    E.ensure('mean of nothing', E.is_neginf(gu(E).logmeanexp([])))
    x = E.real('x')
    E.ensure_eq('zero weights count in the mean',
                gu(E).logmeanexp([-INF, x, -INF]), x - E.log(3.))


@unit('C22', 'logmeanexp_weighted', [G + ':logmeanexp_weighted'])
def _(E):
    n = E.size('n', lo=1)
    a = [E.func('a'), E.func('w')]
    A = E.table('A', n, a[0])
    W = E.table('W', n, a[1])
    E.ensure_eq('weighted mean of exponentials',
                gu(E).logmeanexp_weighted(A, W),
                E.log(E.sum(E.indices(n), lambda i: E.exp(A[i] + W[i])))
                - E.log(E.sum(W, E.exp)))


@unit('C22', 'normalize', [G + ':normalize'])
def _(E):
    n = E.size('n', lo=1)
    f = E.func('p', lo=0)
    p = E.table('p', n, f)
    q = gu(E).normalize(p)
    E.ensure_eq('as many probabilities as weights', E.length(q), n)
    E.ensure_eq('probabilities sum to 1', E.sum(q), 1)
    i = E.int('i', lo=0, hi=n)
    E.ensure_eq('probabilities are proportional to the weights',
                q[i] * E.sum(p), p[i])


@unit('C22', 'log_normalize', [G + ':log_normalize'])
def _(E):
    n = E.size('n', lo=1)
    p = E.table('p', n, E.func('p'))
    q = gu(E).log_normalize(p)
    E.ensure_eq('probabilities sum to 1', E.sum(q, E.exp), 1)
    i, j = E.int('i', lo=0, hi=n), E.int('j', lo=0, hi=n)
    E.ensure_eq('log ratios are kept', q[i] - q[j], p[i] - p[j])


@unit('C22', 'log_pflip', [G + ':log_pflip', G + ':pflip'])
def _(E):
    n = E.size('n', lo=1)
    p = E.table('p', n, E.func('p'))
    rng = E.rng()
    r = gu(E).log_pflip(p, rng=rng)
    draws = rng.draws
    if len(draws) == 0:
        E.ensure_eq('one alternative is chosen without a draw', n, 1)
        E.ensure_eq('one alternative is chosen', r, 0)
    else:
        E.ensure('one draw', len(draws) == 1)
        E.same_law('log_pflip', draws[0], E.indices(n), lambda i: p[i])
        E.ensure_eq('the draw is returned', r, draws[0][2])


@unit('C22', 'pflip', [G + ':pflip'])
def _(E):
    n = E.size('n', lo=1)
    p = E.table('p', n, E.func('p', lo=0))
    rng = E.rng()
    r = gu(E).pflip(p, rng=rng)
    draws = rng.draws
    if len(draws) == 0:
        E.ensure_eq('one alternative is chosen without a draw', n, 1)
        E.ensure_eq('one alternative is chosen', r, 0)
    else:
        E.ensure('one draw', len(draws) == 1)
        E.same_law('pflip', draws[0], E.indices(n),
                   lambda i: E.log(p[i]))
        E.ensure_eq('the draw is returned', r, draws[0][2])


@unit('C22', 'pflip/array', [G + ':pflip', G + ':log_pflip'])
def _(E):
    w = [E.real('w', lo=0) for _ in range(3)]
    names = ['a', 'b', 'c']
    rng = E.rng()
    r = gu(E).pflip(w, array=names, rng=rng)
    E.same_law('pflip over given alternatives', rng.draws[0], names,
               lambda s: E.log(w[names.index(s)]))
    E.ensure('the chosen alternative is returned', r == rng.draws[0][2])
    rng = E.rng()
    r = gu(E).log_pflip([E.log(x) for x in w], array=names, rng=rng)
    E.same_law('log_pflip over given alternatives', rng.draws[0], names,
               lambda s: E.log(w[names.index(s)]))
    E.ensure('the chosen alternative is returned', r == rng.draws[0][2])
    E.ensure('a single alternative', gu(E).pflip(
        [w[0]], array=['z'], rng=E.rng()) == 'z')


@bounded('C22', 'pflip/draws', [G + ':pflip', G + ':log_pflip'], trials=30,
         bound='up to 5 alternatives, some of weight zero')
def _(E):
    n = E.int('n', lo=1, hi=6)
    w = [E.choice('w', [0., 1., 2., 10., E.real('v', lo=0)])
         for _ in range(n)]
    E.assume(sum(w) > 0)
    items = ['t%d' % i for i in range(n)]
    size = E.choice('size', [None, 0, 1, 7])
    if n == 1:
        w = [1.]
    for lg in (False, True):
        rng = E.rng()
        if lg:
            p = [math.log(x) if x > 0 else -INF for x in w]
            r = gu(E).log_pflip(p, array=items, size=size, rng=rng)
        else:
            r = gu(E).pflip(w, array=items, size=size, rng=rng)
        rs = [r] if size is None else list(r)
        E.ensure_eq('number of draws', len(rs), 1 if size is None else size)
        for s in rs:
            E.ensure('an alternative of positive weight is drawn',
                     s in items and w[items.index(s)] > 0, s)


@unit('C22', 'log_nCk', [G + ':log_nCk'])
def _(E):
    k = E.int('k', lo=0)
    n = E.int('n', lo=0)
    E.assume(k <= n)
    r = gu(E).log_nCk(n, k)
    E.ensure_eq('log of n choose k', r, E.lgamma(n + 1) - E.lgamma(k + 1)
                - E.lgamma(n - k + 1))


@unit('C22', 'log_linspace', [G + ':log_linspace'])
def _(E):
    a, b = E.real('a', lo=0), E.real('b', lo=0)
    n = E.int('n', lo=2, hi=None if E.symbolic else 40)
    g = gu(E).log_linspace(a, b, n)
    E.ensure_eq('as many grid points as asked', E.length(g), n)
    E.ensure_eq('the grid starts at a', g[0], a)
    E.ensure_eq('the grid ends at b', g[n - 1], b)
    i = E.int('i', lo=0, hi=n - 1)
    E.ensure_eq('the grid is even in the logarithm',
                (E.log(g[i + 1]) - E.log(g[i])) * (n - 1),
                E.log(b) - E.log(a))
    E.ensure('grid points are positive', g[i] > 0)


@bounded('C22', 'collections', [
    G + ':merged', G + ':mergedl', G + ':lchain', G + ':is_disjoint',
    G + ':get_intersection', G + ':flatten_cgpms'], trials=60,
    bound='up to 4 collections of up to 5 integers')
def _(E):
    ks = [[int(x) for x in E.r.choice(12, size=E.r.randint(6),
                                      replace=False)]
          for _ in range(E.r.randint(1, 5))]
    ds = [dict((k, (i, k)) for k in b) for i, b in enumerate(ks)]
    m = gu(E).merged(*ds)
    want = {}
    for d in ds:
        for k in d:
            want[k] = d[k]
    E.ensure('merged: later dicts win', m == want, m)
    E.ensure('mergedl', gu(E).mergedl(ds) == want)
    E.ensure('merged builds a new dict', all(m is not d for d in ds))
    E.ensure('lchain concatenates', gu(E).lchain(*ks) == sum(ks, []))
    a, b = ks[0], ks[-1]
    E.ensure('is_disjoint', gu(E).is_disjoint(a, b) == (
        not any(x in b for x in a)))
    E.ensure('intersection of lists keeps the order',
             gu(E).get_intersection(a, b) == [x for x in b if x in a])
    E.ensure('intersection with a dict', gu(E).get_intersection(
        a, ds[-1]) == dict((k, ds[-1][k]) for k in b if k in a))
    E.ensure('intersection with none of a dict',
             gu(E).get_intersection(ds[0], None) == {})
    E.ensure('intersection with none of a list',
             gu(E).get_intersection(a, None) == [])


@bounded('C22', 'rng', [G + ':gen_rng', G + ':get_prng'], trials=10,
         bound='10 seeds')
def _(E):
    s = E.int('seed', lo=0, hi=10 ** 6)
    a, b = gu(E).gen_rng(s), gu(E).gen_rng(s)
    E.ensure('equal seeds give equal streams', list(a.rand(5)) == list(
        b.rand(5)))
    c = gu(E).gen_rng(s + 1)
    E.ensure('different seeds give different streams',
             list(gu(E).gen_rng(s).rand(5)) != list(c.rand(5)))
    E.ensure('no seed gives a generator', len(gu(E).gen_rng().rand(3)) == 3)


@bounded('C22', 'simulate_many', [G + ':simulate_many'], trials=20,
         bound='N up to 5')
def _(E):
    calls = []

    def f(*a, **k):
        calls.append((a, k))
        return len(calls)
    w = gu(E).simulate_many(f)
    n = E.int('n', lo=0, hi=6)
    E.ensure_eq('without N one sample, not a list', w('self', 0, [1]), 1)
    calls[:] = []
    E.ensure('N by name', w('self', 0, [1], N=n) == list(range(1, n + 1)))
    calls[:] = []
    E.ensure('N by position', w('self', 0, [1], None, None, n) == list(
        range(1, n + 1)))
    E.ensure_eq('one call per sample', len(calls), n)


@bounded('C22', 'build_rowid_blocks', [G + ':build_rowid_blocks'], trials=30,
         bound='up to 6 rows in up to 3 partitions')
def _(E):
    n, m = E.int('n', lo=1, hi=7), E.int('m', lo=1, hi=4)
    Z = [[int(E.r.randint(3)) for _ in range(n)] for _ in range(m)]
    b = gu(E).build_rowid_blocks(Z)
    seen = []
    for key, rows in b.items():
        for r in rows:
            E.ensure('rows are grouped by their assignments',
                     tuple(key) == tuple(z[r] for z in Z))
            seen.append(int(r))
    E.ensure('every row is in one block', sorted(seen) == list(range(n)))


# --------------------------------------------------------------------------
# Multivariate normal laws.

MVN = 'cgpm.utils.mvnormal'


def law(r, n):
    A = r.normal(size=(n, n))
    return r.normal(size=n) * 2, A.dot(A.T) + np.eye(n) * .3


@bounded('C22', 'mvnormal/density', [MVN + ':logpdf',
                                     MVN + ':_covariance_factor'], trials=200,
         bound='up to 5 dimensions')
def _(E):
    """The density is that of scipy; a point that is not finite is
    rejected."""
    import scipy.stats as st
    r = E.r
    n = int(r.randint(1, 6))
    mu, S = law(r, n)
    x = r.normal(size=n) * 3
    before = (x.copy(), mu.copy(), S.copy())
    m = E.mod(MVN)
    E.ensure_eq('the density', m.logpdf(x, mu, S),
                st.multivariate_normal.logpdf(x, mu, S), tol=1e-8)
    E.ensure('the arguments are left alone', all(
        np.array_equal(a, b) for a, b in zip(before, (x, mu, S))))
    y = [x, mu, S][r.randint(3)].copy()
    bad = [x, mu, S]
    i = r.randint(3)
    bad[i] = bad[i].copy()
    bad[i].flat[r.randint(bad[i].size)] = [np.nan, INF, -INF][r.randint(3)]
    E.raises(AssertionError, lambda: m.logpdf(*bad), 'not finite')
    E.raises(AssertionError, lambda: m.logpdf(x, np.zeros(n + 1), S),
             'another dimension')


@bounded('C22', 'mvnormal/derivatives', [MVN + ':dlogpdf'], trials=120,
         bound='up to 4 dimensions, up to 3 parameters each')
def _(E):
    """The derivatives by the point, the mean and the covariance are the
    limits of the differences."""
    import scipy.stats as st
    r = E.r
    n = int(r.randint(1, 5))
    mu, S = law(r, n)
    x = r.normal(size=n)
    f = st.multivariate_normal.logpdf
    dX = [r.normal(size=n) for _ in range(r.randint(4))]
    dM = [r.normal(size=n) for _ in range(r.randint(4))]
    dS = [(lambda A: A + A.T)(r.normal(size=(n, n)))
          for _ in range(r.randint(4))]
    got = E.mod(MVN).dlogpdf(x, dX, mu, dM, S, dS)
    h = 1e-5
    want = ([(f(x + h * d, mu, S) - f(x - h * d, mu, S)) / (2 * h)
             for d in dX],
            [(f(x, mu + h * d, S) - f(x, mu - h * d, S)) / (2 * h)
             for d in dM],
            [(f(x, mu, S + h * d) - f(x, mu, S - h * d)) / (2 * h)
             for d in dS])
    for name, a, b in zip(('point', 'mean', 'covariance'), got, want):
        E.ensure('by the ' + name, len(a) == len(b) and all(
            abs(u - v) <= 1e-4 * (1 + abs(v)) for u, v in zip(a, b)), (a, b))


@bounded('C22', 'mvnormal/conditional', [MVN + ':conditional'], trials=200,
         bound='up to 3 and 3 dimensions')
def _(E):
    """Joint density over marginal density is the density of the
    conditional."""
    import scipy.stats as st
    r = E.r
    a, b = int(r.randint(1, 4)), int(r.randint(1, 4))
    mu, S = law(r, a + b)
    x = r.normal(size=a + b) * 2
    m, C = E.mod(MVN).conditional(x[a:], mu[:a], mu[a:], S[:a, :a],
                                  S[:a, a:], S[a:, :a], S[a:, a:])
    f = st.multivariate_normal.logpdf
    E.ensure('shapes', np.shape(m) == (a,) and np.shape(C) == (a, a))
    E.ensure_eq('the density', f(x[:a], m, (C + C.T) / 2),
                f(x, mu, S) - f(x[a:], mu[a:], S[a:, a:]), tol=1e-6)
