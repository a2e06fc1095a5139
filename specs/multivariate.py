"""C25: multivariate components against independent formulas (numerical)."""
import copy
import itertools
import json
import math

import numpy as np
import scipy.stats as st

from specs.regressions import fits, frequencies
from vf.spec import bounded

FA = 'cgpm.factor.factor:FactorAnalysis'
KD = 'cgpm.kde.mvkde:MultivariateKde'
KN = 'cgpm.knn.mvknn:MultivariateKnn'
VE = (ValueError,)
NAN = float('nan')


def subset(r, xs, lo=0, hi=None):
    n = int(r.randint(lo, (len(xs) if hi is None else hi) + 1))
    return [xs[i] for i in r.permutation(len(xs))[:n]]


# --------------------------------------------------------------------------
# Factor analysis.

class Factor(object):
    def __init__(self, E):
        r = self.r = E.r
        self.D = D = int(r.randint(2, 5))
        self.L = L = int(r.randint(1, min(D, 3) + 1)) if D > 1 else 1
        L = self.L = min(L, D)
        self.names = [int(v) for v in r.permutation(50)[:D + L] - 20]
        self.obs, self.lat = self.names[:D], self.names[D:]
        self.W = r.normal(size=(D, L))
        self.mux = r.normal(size=D) * 2
        self.Psi = np.diag(r.gamma(2., size=D) + .1)
        self.m = E.get(FA)(list(self.names), None, L=L, params={
            'W': self.W, 'mux': self.mux, 'Psi': self.Psi},
            rng=np.random.RandomState(r.randint(2 ** 31)))
        self.rows = {}
        for _ in range(int(r.randint(0, 7))):
            i = int(r.randint(100))
            if i in self.rows:
                self.m.unincorporate(i)
            row = dict((v, float(r.normal() * 2)) for v in subset(
                r, self.obs, 1))
            self.m.incorporate(i, dict(row))
            self.rows[i] = row
        E.note('names', self.names)
        E.note('rows', self.rows)

    def joint(self):
        """Mean and covariance of the variables in the order of names."""
        return (np.concatenate((self.mux, np.zeros(self.L))),
                np.block([[self.W.dot(self.W.T) + self.Psi, self.W],
                          [self.W.T, np.eye(self.L)]]))

    def logpdf(self, x):
        if not x:
            return 0.
        mu, S = self.joint()
        i = [self.names.index(v) for v in x]
        return st.multivariate_normal.logpdf(
            np.array(list(x.values())), mu[i], S[np.ix_(i, i)])

    def conditional(self, targets, given):
        """By completing the square of the joint density."""
        mu, S = self.joint()
        q = [self.names.index(v) for v in targets]
        e = [self.names.index(v) for v in given]
        if not e:
            return mu[q], S[np.ix_(q, q)]
        i = q + e
        P = np.linalg.inv(S[np.ix_(i, i)])
        n = len(q)
        C = np.linalg.inv(P[:n, :n])
        d = np.array([given[v] for v in given]) - mu[e]
        return mu[q] - C.dot(P[:n, n:]).dot(d), C

    def query(self, latent=True):
        r = self.r
        names = self.names if latent else self.obs
        t = subset(r, names, 1)
        rest = [v for v in self.names if v not in t]
        c = dict((v, float(r.normal() * 2)) for v in subset(r, rest))
        here = len(self.rows) > 0 and r.randint(2)
        row = list(self.rows)[r.randint(len(self.rows))] if here else 1234
        full = dict(c)
        for v, x in self.rows.get(row, {}).items():
            if v not in t and v not in full:
                full[v] = x
        return row, t, c, full


FB = 'up to 4 observable and 3 latent variables, up to 6 rows'


@bounded('C25', 'law/factor analysis', [
    FA + '.' + f for f in ('__init__', 'logpdf', 'simulate', 'reindex',
                           'joint_parameters', 'mvn_condition',
                           'mvn_marginalize', 'populate_constraints')],
    trials=120, bound=FB)
def _(E):
    """Densities and samples of the conditional of the joint normal law."""
    F = Factor(E)
    row, t, c, full = F.query()
    x = dict((v, float(E.r.normal() * 2)) for v in t)
    got = F.m.logpdf(row, dict(x), dict(c) or None)
    E.ensure_eq('the density', got, F.logpdf(dict(full, **{})
                if False else dict(list(full.items()) + list(x.items())))
                - F.logpdf(full), tol=1e-6)
    out = F.m.simulate(row, list(t), dict(c) or None, N=300)
    E.ensure('as many samples as asked for', len(out) == 300 and all(
        set(s) == set(t) for s in out))
    mu, S = F.conditional(t, full)
    X = np.array([[s[v] for v in t] for s in out])
    for i in range(len(t)):
        E.ensure('samples of the law', fits(
            X[:, i], st.norm(mu[i], math.sqrt(S[i, i])).cdf), t[i])
    # a direction of the joint law
    w = E.r.normal(size=len(t))
    E.ensure('samples of the joint law', fits(X.dot(w), st.norm(
        mu.dot(w), math.sqrt(w.dot(S).dot(w))).cdf))
    one = F.m.simulate(row, list(t), dict(c) or None)
    E.ensure('one sample', set(one) == set(t))


@bounded('C25', 'score/factor analysis', [FA + '.logpdf_score'],
         trials=60, bound=FB)
def _(E):
    """The score is the sum of the densities of the observed cells."""
    F = Factor(E)
    E.ensure_eq('the score', F.m.logpdf_score(), sum(
        F.logpdf(x) for x in F.rows.values()), tol=1e-6)


@bounded('C25', 'rejects/factor analysis', [FA + '.logpdf', FA + '.simulate'],
         trials=60, bound=FB)
def _(E):
    """No inputs, no targets, unknown targets and targets that are
    constrained are rejected."""
    F = Factor(E)
    row, t, c, full = F.query()
    x = dict((v, 1.) for v in t)
    for n, tt, cc, ii in (
            ('inputs', t, c, {7: 1}), ('no targets', [], c, None),
            ('unknown target', t + [999], c, None),
            ('constrained target', t, dict(c, **{}) if False else dict(
                list(c.items()) + [(t[0], 1.)]), None)):
        E.raises(VE, lambda: F.m.logpdf(row, dict((v, 1.) for v in tt),
                                        dict(cc), ii), n)
        E.raises(VE, lambda: F.m.simulate(row, list(tt), dict(cc), ii), n)


@bounded('C25', 'transition/factor analysis', [FA + '.transition'],
         trials=12, bound='40 rows of 4 variables, 1 or 2 factors')
def _(E):
    """After a transition the law of the observables explains the complete
    rows at least as well as any independent law, and queries use it."""
    r = E.r
    L = int(r.randint(1, 3))
    W0 = r.normal(size=(4, L)) * 1.5
    X = r.normal(size=(40, L)).dot(W0.T) + r.normal(size=4) * 3 + \
        r.normal(size=(40, 4)) * .5
    names = [8, 3, 5, 1] + [70, 60][:L]
    m = E.get(FA)(names, None, L=L, rng=np.random.RandomState(0))
    for i, x in enumerate(X):
        m.incorporate(i, dict(zip(names, x)))
    m.incorporate(99, {names[0]: 1000., names[1]: 2.})
    m.transition()
    cov = m.W.dot(m.W.T) + m.Psi
    E.ensure('the mean of the complete rows',
             np.allclose(m.mux, X.mean(axis=0)))
    E.ensure('independent noise', np.allclose(m.Psi, np.diag(np.diag(m.Psi)))
             and np.all(np.diag(m.Psi) > 0))
    fit = st.multivariate_normal(m.mux, cov).logpdf(X).sum()
    alone = sum(st.norm(X[:, j].mean(), X[:, j].std()).logpdf(
        X[:, j]).sum() for j in range(4))
    E.ensure('explains the rows', fit > alone, (fit, alone))
    E.ensure_eq('queries use the new law', m.logpdf(
        -1, dict(zip(names, X[0]))), st.multivariate_normal(
            m.mux, cov).logpdf(X[0]), tol=1e-6)
    z = names[4:]
    S = np.linalg.inv(np.eye(L) + m.W.T.dot(np.linalg.inv(m.Psi)).dot(m.W))
    mean = S.dot(m.W.T).dot(np.linalg.inv(m.Psi)).dot(X[1] - m.mux)
    E.ensure_eq('the latent variables given a row', m.logpdf(
        1, dict(zip(z, [.3] * L))), st.multivariate_normal(mean, S).logpdf(
            [.3] * L), tol=1e-6)


# --------------------------------------------------------------------------
# Kernel density.

class Table(object):
    """Rows of numerical and categorical variables, some cells missing;
    every category occurs in a complete row."""

    def __init__(self, E, path, n=None, kinds=None, gaps=True, cover=True,
                 **kw):
        r = self.r = E.r
        d = int(r.randint(2, 4)) if kinds is None else len(kinds)
        self.names = [int(v) for v in r.permutation(40)[:d]]
        self.kind = dict((v, (None if r.randint(2) else int(r.randint(2, 4)))
                          if kinds is None else kinds[i])
                         for i, v in enumerate(self.names))
        word = lambda v: 'numerical' if self.kind[v] is None else [
            'categorical', 'nominal'][v % 2]
        self.m = E.get(path)(
            list(self.names), None, distargs={'outputs': {
                'stattypes': [word(v) for v in self.names],
                'statargs': [{} if self.kind[v] is None else
                             {'k': self.kind[v]} for v in self.names]}},
            rng=np.random.RandomState(r.randint(2 ** 31)), **kw)
        self.rows = {}
        n = int(r.randint(5, 9)) if n is None else n
        for i in range(n):
            row = dict((v, self.cell(v, i if cover else None))
                       for v in self.names)
            if gaps and i >= 4 and r.randint(2):
                for v in subset(r, self.names, 1, d - 1):
                    del row[v]
            k = int(r.randint(1000))
            while k in self.rows:
                k += 1
            if r.randint(3) == 0:      # a row that comes and goes
                self.m.incorporate(k, {self.names[0]: 0})
                self.m.unincorporate(k)
            self.m.incorporate(k, dict(row))
            self.rows[k] = row
        E.note('names', self.kind)
        E.note('rows', self.rows)

    def cell(self, v, i=None):
        k = self.kind[v]
        if k is None:
            return float(self.r.normal() * 2)
        return int(self.r.randint(k)) if i is None or i >= k else i

    def query(self, most=None, constrained=True):
        r = self.r
        t = subset(r, self.names, 1, most)
        rest = [v for v in self.names if v not in t]
        c = dict((v, self.cell(v)) for v in subset(r, rest)) \
            if constrained else {}
        here = r.randint(2)
        row = list(self.rows)[r.randint(len(self.rows))] if here else 5555
        full = dict(c)
        for v, x in self.rows.get(row, {}).items():
            if v not in t and v not in full:
                full[v] = x
        return row, t, c, full

    def complete(self, vs):
        return [x for x in self.rows.values() if all(v in x for v in vs)]


def kernel(T, v, h, x, y):
    k = T.kind[v]
    if k is None:
        return st.norm.pdf(x, y, h)
    return 1 - h if x == y else h / (k - 1)


def kde_weights(T, bw, rows, at):
    return [np.prod([kernel(T, v, bw[v], at[v], y[v]) for v in at])
            if at else 1. for y in rows]


KB = 'up to 8 rows (4 complete), 3 variables of up to 3 categories'


@bounded('C25', 'law/kernel density', [
    KD + '.' + f for f in ('logpdf', 'simulate', '_dataset', '_bw',
                           '_stattypes', '_simulate_member',
                           '_simulate_gaussian_kernel',
                           '_simulate_aitchison_aitken_kernel',
                           'populate_constraints', '_default_bw')],
    trials=120, bound=KB)
def _(E):
    """The density is the average of the kernels at the rows that have all
    variables of the query; given constraints, joint over marginal.  Samples
    follow it."""
    T = Table(E, KD)
    m = T.m
    if E.r.randint(2):
        m.bw = [float(E.r.uniform(.3, 2.)) if T.kind[v] is None else
                float(E.r.uniform(.05, .45)) for v in T.names]
    bw = dict(zip(T.names, m.bw))
    row, t, c, full = T.query()
    at = dict((v, T.cell(v)) for v in t)
    rows = T.complete(list(t) + list(full))
    given = np.array(kde_weights(T, bw, rows, full))
    here = np.array(kde_weights(T, bw, rows, at))
    want = (here * given).sum() / given.sum()
    E.ensure_eq('the density', math.exp(m.logpdf(
        row, dict(at), dict(c) or None)), want, tol=1e-6)
    N = 300
    out = m.simulate(row, list(t), dict(c) or None, N=N)
    E.ensure('as many samples as asked for', len(out) == N and all(
        set(s) == set(t) for s in out))
    w = given / given.sum()
    for v in t:
        xs = [s[v] for s in out]
        if T.kind[v] is None:
            cdf = lambda z: sum(wi * st.norm.cdf(z, y[v], bw[v])
                                for wi, y in zip(w, rows))
            E.ensure('samples of the law', fits(xs, cdf), v)
        else:
            p = [sum(wi * kernel(T, v, bw[v], z, y[v])
                     for wi, y in zip(w, rows)) for z in range(T.kind[v])]
            E.ensure('samples of the law', frequencies(np.bincount(
                xs, minlength=T.kind[v]), p), v)
    cats = [v for v in t if T.kind[v] is not None]
    if len(cats) == 2:
        # two variables of one sample come from one row
        a, b = cats
        cells = list(itertools.product(range(T.kind[a]), range(T.kind[b])))
        p = [sum(wi * kernel(T, a, bw[a], x, y[a]) * kernel(
            T, b, bw[b], z, y[b]) for wi, y in zip(w, rows))
            for x, z in cells]
        n = [sum(1 for s in out if (s[a], s[b]) == q) for q in cells]
        E.ensure('joint samples', frequencies(n, p))
    one = m.simulate(row, list(t), dict(c) or None)
    E.ensure('one sample', set(one) == set(t))


@bounded('C25', 'total/kernel density', [KD + '.logpdf'], trials=60, bound=KB)
def _(E):
    """Densities of a categorical variable add up to one."""
    T = Table(E, KD, kinds=[3, None, 2])
    v = T.names[[0, 2][E.r.randint(2)]]
    rest = [u for u in T.names if u != v]
    c = dict((u, T.cell(u)) for u in subset(E.r, rest))
    E.ensure_eq('the total', sum(math.exp(T.m.logpdf(
        5555, {v: i}, dict(c) or None)) for i in range(T.kind[v])), 1.,
        tol=1e-6)


@bounded('C25', 'absent category/kernel density', [KD + '.logpdf'], trials=1,
         bound='one table')
def _(E):
    """... also when a category does not occur in the rows."""
    m = E.get(KD)([0, 1], None, distargs={'outputs': {
        'stattypes': ['categorical', 'numerical'],
        'statargs': [{'k': 3}, {}]}}, rng=np.random.RandomState(0))
    for i, (a, b) in enumerate([(0, .5), (1, 1.), (0, 2.)]):
        m.incorporate(i, {0: a, 1: b})
    E.ensure_eq('the total', sum(math.exp(m.logpdf(99, {0: i}))
                                 for i in range(3)), 1., tol=1e-6)


@bounded('C25', 'score/kernel density', [KD + '.logpdf_score'], trials=30,
         bound=KB)
def _(E):
    """The score is the sum of the densities of the observed cells."""
    T = Table(E, KD)
    bw = dict(zip(T.names, T.m.bw))
    want = 0.
    for x in T.rows.values():
        rows = T.complete(list(x))
        want += math.log(np.mean(kde_weights(T, bw, rows, x)))
    E.ensure_eq('the score', T.m.logpdf_score(), want, tol=1e-6)


@bounded('C25', 'rejects/kernel density', [KD + '.logpdf', KD + '.simulate'],
         trials=40, bound=KB)
def _(E):
    T = Table(E, KD)
    row, t, c, full = T.query()
    bad = [('inputs', t, c, {7: 1}), ('no targets', [], c, None),
           ('unknown target', t + [999], c, None),
           ('constrained target', t, dict(list(c.items()) + [(t[0], 1)]),
            None)]
    for n, tt, cc, ii in bad:
        E.raises(VE, lambda: T.m.logpdf(row, dict((v, 1) for v in tt),
                                        dict(cc), ii), n)
        E.raises(VE, lambda: T.m.simulate(row, list(tt), dict(cc), ii), n)
    E.raises(VE, lambda: T.m.logpdf(row, dict((v, NAN) for v in t),
                                    dict(c)), 'nan')
    empty = E.get(KD)([0, 1], None, distargs={'outputs': {
        'stattypes': ['numerical'] * 2, 'statargs': [{}, {}]}})
    E.raises(VE, lambda: empty.logpdf(1, {0: 1.}), 'no rows')
    E.raises(VE, lambda: empty.simulate(1, [0]), 'no rows')


@bounded('C25', 'transition/kernel density', [KD + '.transition'], trials=4,
         bound='12 rows')
def _(E):
    """A transition changes the bandwidths only: those of the best leave one
    out likelihood on the complete rows, as found by statsmodels."""
    T = Table(E, KD, n=12, kinds=[None, 2])
    m = T.m
    full = [x for x in T.rows.values() if len(x) == len(T.names)]
    if len(full) < 5:
        return
    before = copy.deepcopy((dict(m.data), m.N))
    m.transition()
    E.ensure('the rows are kept', repr(before) == repr((dict(m.data), m.N)))
    E.ensure('one bandwidth for each variable', len(m.bw) == 2)
    from statsmodels.nonparametric.kernel_density import KDEMultivariate
    want = KDEMultivariate(
        np.array([[x[v] for v in m.outputs] for x in full], float),
        ''.join('c' if T.kind[v] is None else 'u' for v in m.outputs),
        bw='cv_ml').bw
    E.ensure_eq('the best bandwidths', list(m.bw), list(want), tol=1e-6)


# --------------------------------------------------------------------------
# Nearest neighbours.

def dummy(T, vs, x):
    out = []
    for v in vs:
        k = T.kind[v]
        out += [x[v]] if k is None else [
            1. if x[v] == j else 0. for j in range(k - 1)]
    return np.array(out, float)


def neighbourhoods(T, K, t, full):
    """The localities of the K nearest rows; None if not decided."""
    vs = list(t) + list(full)
    rows = T.complete(vs)
    if len(rows) < K:
        return None, rows
    ev = list(full)
    d = [np.linalg.norm(dummy(T, ev, x) - dummy(T, ev, full)) for x in rows]
    order = np.argsort(d, kind='stable')
    if len(rows) > K and d[order[K]] - d[order[K - 1]] < 1e-9:
        return 'tie', rows
    out = []
    M = min(T.m.M, K)
    for i in order[:K]:
        e = [np.linalg.norm(dummy(T, vs, x) - dummy(T, vs, rows[i]))
             for x in rows]
        o = np.argsort(e, kind='stable')
        if len(rows) > M and e[o[M]] - e[o[M - 1]] < 1e-9:
            return 'tie', rows
        out.append([rows[j] for j in o[:M]])
    return out, rows


def local(T, v, near):
    xs = np.array([y[v] for y in near], float)
    if T.kind[v] is None:
        return st.norm(xs.mean(), max(xs.std(), .01))
    return [np.mean(xs == j) for j in range(T.kind[v])]


def local_pdf(T, v, near, x):
    g = local(T, v, near)
    return g.pdf(x) if T.kind[v] is None else g[x]


NB = 'up to 8 rows, 3 variables of up to 3 categories, 1 to 4 neighbours'


@bounded('C25', 'law/nearest neighbours', [
    KN + '.' + f for f in ('logpdf', 'simulate', '_find_neighborhoods',
                           '_create_local_model_joint', '_dataset',
                           '_create_local_model_numerical',
                           '_create_local_model_categorical',
                           '_dummy_code', 'populate_constraints')],
    trials=200, bound=NB)
def _(E):
    """The density averages, over the nearest rows by the constraints, the
    product of local models of the targets; samples follow it."""
    K = int(E.r.randint(1, 5))
    T = Table(E, KN, n=int(E.r.randint(4, 9)), K=K,
              M=int(E.r.randint(1, K + 1)))
    m = T.m
    row, t, c, full = T.query(most=len(T.names) - 1)
    if not full:
        return
    at = dict((v, T.cell(v)) for v in t)
    near, rows = neighbourhoods(T, K, t, full)
    if near is None or len(T.rows) < K:
        E.raises(VE, lambda: m.logpdf(row, dict(at), dict(c)),
                 'not enough neighbours')
        E.raises(VE, lambda: m.simulate(row, list(t), dict(c)),
                 'not enough neighbours')
        return
    if near == 'tie':
        return
    want = np.mean([np.prod([local_pdf(T, v, n, at[v]) for v in t])
                    for n in near])
    got = m.logpdf(row, dict(at), dict(c) or None)
    if want == 0:
        E.ensure('no density', got < -650)
    else:
        E.ensure_eq('the density', got, math.log(want), tol=1e-6)
    N = 300
    out = m.simulate(row, list(t), dict(c) or None, N=N)
    E.ensure('as many samples as asked for', len(out) == N and all(
        set(s) == set(t) for s in out))
    for v in t:
        xs = [s[v] for s in out]
        ls = [local(T, v, n) for n in near]
        if T.kind[v] is None:
            E.ensure('samples of the law', fits(xs, lambda z: np.mean(
                [g.cdf(z) for g in ls], axis=0)), v)
        else:
            E.ensure('samples of the law', frequencies(np.bincount(
                xs, minlength=T.kind[v]), np.mean(ls, axis=0)), v)
    one = m.simulate(row, list(t), dict(c) or None)
    E.ensure('one sample', set(one) == set(t))


@bounded('C25', 'ties/nearest neighbours', [KN + '._find_neighborhoods'],
         trials=60, bound='7 rows')
def _(E):
    """Rows nearer than the tied ones are always neighbours; which of the
    tied ones are is a matter of chance."""
    r = E.r
    K = int(r.randint(2, 4))
    m = E.get(KN)([0, 1], None, K=K, M=1, distargs={'outputs': {
        'stattypes': ['numerical'] * 2, 'statargs': [{}, {}]}},
        rng=np.random.RandomState(r.randint(2 ** 31)))
    near = int(r.randint(0, K))
    tied = int(r.randint(K - near + 1, 5))
    x = [.1 * (i + 1) for i in range(near)] + [1.] * tied + [3., 4.]
    order = r.permutation(len(x))
    for i in order:
        m.incorporate(int(i), {0: x[i], 1: 100. * i})
    E.note('distances', x)
    seen = set()
    for _ in range(40):
        D, ex = m._find_neighborhoods([1], {0: 0.})
        got = sorted(int(round(D[e[0]][0] / 100.)) for e in ex)
        E.ensure('K neighbours', len(set(got)) == K, got)
        E.ensure('the nearer rows', all(i in got for i in range(near)), got)
        E.ensure('then the tied rows', all(
            i < near + tied for i in got), got)
        seen.update(got)
    E.ensure('any of the tied rows', len(seen) == near + tied, seen)


@bounded('C25', 'unconstrained/nearest neighbours',
         [KN + '.simulate', KN + '._simulate_fallback', KN + '.logpdf'],
         trials=40, bound=NB)
def _(E):
    """Without constraints a sample has all targets, with categories that
    occur; there is no density."""
    T = Table(E, KN, n=8, gaps=False, K=int(E.r.randint(1, 3)))
    t = subset(E.r, T.names, 1)
    N = [None, 1, 4][E.r.randint(3)]
    out = T.m.simulate(5555, list(t), None, N=N)
    if N is None:
        out = [out]
    E.ensure('as many samples as asked for', len(out) == (N or 1))
    for s in out:
        E.ensure('all targets', set(s) == set(t), s)
        E.ensure('categories that occur', all(
            any(x[v] == s[v] for x in T.rows.values()) for v in t
            if T.kind[v] is not None))
    E.raises(VE, lambda: T.m.logpdf(5555, dict((v, 0) for v in t)),
             'no density')


@bounded('C25', 'rejects/nearest neighbours',
         [KN + '.logpdf', KN + '.simulate', KN + '._validate_simulate_logpdf'],
         trials=40, bound=NB)
def _(E):
    T = Table(E, KN, n=8, gaps=False, K=2)
    t = T.names[:1]
    c = {T.names[1]: T.cell(T.names[1])}
    few = E.get(KN)([0, 1], None, K=3, distargs={'outputs': {
        'stattypes': ['numerical'] * 2, 'statargs': [{}, {}]}})
    few.incorporate(1, {0: 1., 1: 2.})
    few.incorporate(2, {0: 1., 1: 2.})
    for n, m, tt, cc, ii in (
            ('inputs', T.m, t, c, {7: 1}), ('no targets', T.m, [], c, None),
            ('unknown target', T.m, t + [999], c, None),
            ('unknown constraint', T.m, t, dict(
                list(c.items()) + [(999, 1)]), None),
            ('constrained target', T.m, t, dict(
                list(c.items()) + [(t[0], 1)]), None),
            ('nan constraint', T.m, t, {T.names[1]: NAN}, None),
            ('few rows', few, [0], {1: 1.}, None)):
        E.raises(VE, lambda: m.logpdf(5555, dict((v, 1) for v in tt),
                                      dict(cc), ii), n)
        E.raises(VE, lambda: m.simulate(5555, list(tt), dict(cc), ii), n)
    E.raises(VE, lambda: T.m.logpdf(5555, {t[0]: NAN}, dict(c)), 'nan')
    E.raises(VE, lambda: T.m.simulate(5555, list(t), dict(c), N=0),
             'no samples')


# --------------------------------------------------------------------------

@bounded('C25', 'construction', [p + '.__init__' for p in (FA, KD, KN)],
         trials=60, bound='malformed arguments one at a time')
def _(E):
    """Malformed descriptions are rejected."""
    D = lambda st, sa: {'outputs': {'stattypes': st, 'statargs': sa}}
    N, C = 'numerical', 'categorical'
    for p, kw in ((KD, {}), (KN, {'K': 1})):
        cls = E.get(p)
        cls([0, 1], None, distargs=D([N, C], [{}, {'k': 2}]), **kw)
        for name, a in (
                ('inputs', ([0, 1], [2], D([N, C], [{}, {'k': 2}]))),
                ('no outputs', ([], None, D([], []))),
                ('twice', ([0, 0], None, D([N, C], [{}, {'k': 2}]))),
                ('no distargs', ([0, 1], None, None)),
                ('no stattypes', ([0, 1], None, {'outputs': {
                    'statargs': [{}, {}]}})),
                ('no statargs', ([0, 1], None, {'outputs': {
                    'stattypes': [N, N]}})),
                ('few stattypes', ([0, 1], None, D([N], [{}, {}]))),
                ('few statargs', ([0, 1], None, D([N, N], [{}]))),
                ('no k', ([0, 1], None, D([N, C], [{}, {}])))):
            E.raises(VE, lambda: cls(a[0], a[1], distargs=a[2], **kw), name)
    for K in (None, 0, -1):
        E.raises(VE, lambda: E.get(KN)([0, 1], None, K=K, distargs=D(
            [N, N], [{}, {}])), 'K')
    E.raises(VE, lambda: E.get(KN)([0], None, K=1, distargs=D([N], [{}])),
             'one output')
    cls = E.get(FA)
    cls([0, 1, 2], None, L=1)
    for name, a, kw in (
            ('inputs', [0, 1, 2], dict(inputs=[5], L=1)),
            ('one output', [0], dict(inputs=None, L=1)),
            ('twice', [0, 0, 1], dict(inputs=None, L=1)),
            ('no L', [0, 1, 2], dict(inputs=None)),
            ('L = 0', [0, 1, 2], dict(inputs=None, L=0)),
            ('L too large', [0, 1, 2], dict(inputs=None, L=2)),
            ('categorical', [0, 1, 2], dict(inputs=None, L=1, distargs=D(
                [N, C], [{}, {'k': 2}])))):
        E.raises(VE, lambda: cls(a, **kw), name)


@bounded('C25', 'saved', [p + '.' + f for p in (FA, KD, KN)
                          for f in ('to_metadata', 'from_metadata')],
         trials=60, bound=KB)
def _(E):
    """A component restored from its metadata (also through JSON) has the
    same rows, parameters and densities, and goes on on its own."""
    path = [FA, KD, KN][int(E.r.randint(3))]
    if path == FA:
        F = Factor(E)
        m, rows = F.m, F.rows
        row, t, c, full = F.query()
        at = dict((v, 1.5) for v in t)
        new = dict((v, 1.) for v in F.obs)
    else:
        kw = {'K': 2, 'M': 1} if path == KN else {}
        F = Table(E, path, n=7, kinds=[None, None, 2], **kw)
        m, rows = F.m, F.rows
        if path == KD:
            m.bw = [.7, 1.3, .2]
        t, c = F.names[:1], {F.names[1]: .25}
        at, row = {t[0]: F.cell(t[0])}, 5555
        new = dict((v, 1) for v in F.names)
    meta = m.to_metadata()
    if E.r.randint(2):
        meta = json.loads(json.dumps(meta))
    E.ensure('the factory', tuple(meta['factory']) == tuple(path.split(':')))
    s = E.get(path).from_metadata(meta, rng=np.random.RandomState(3))
    same = lambda a, b: list(a) == list(b) and all(
        np.array_equal(a[k], b[k], equal_nan=True) for k in a)
    E.ensure('the rows', same(m.data, s.data) and s.N == m.N)
    E.ensure_eq('the densities', s.logpdf(row, dict(at), dict(c)),
                m.logpdf(row, dict(at), dict(c)), tol=1e-9)
    n = m.N
    s.incorporate(7777, new)
    if rows:
        s.unincorporate(list(rows)[0])
    E.ensure('the original is left alone', m.N == n and set(m.data) ==
             set(rows))
