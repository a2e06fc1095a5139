"""C24: regression components against independent formulas (numerical)."""
import base64
import copy
import json
import math
import pickle

import numpy as np
import scipy.stats as st

from vf.spec import bounded

LR = 'cgpm.regressions.linreg:LinearRegression'
OL = 'cgpm.regressions.ols:OrdinaryLeastSquares'
RF = 'cgpm.regressions.forest:RandomForest'
BOUND = 'up to 7 rows, up to 3 inputs of up to 3 categories'


def fits(sample, cdf, level=1e-6):
    """The sample does not contradict the law."""
    return st.kstest(sample, cdf).pvalue > level


def frequencies(counts, p, level=1e-6):
    counts, p = np.asarray(counts, float), np.asarray(p, float)
    if counts[p < 1e-12].sum() > 0:
        return False
    k = p > 1e-12
    if k.sum() < 2:
        return True
    return st.chisquare(counts[k], p[k] / p[k].sum() * counts.sum()
                        ).pvalue > level


class Case(object):
    """A component with inputs of several kinds, and rows."""

    def __init__(self, E, path, n=None):
        r = self.r = E.r
        self.E, self.path = E, path
        names = [int(v) for v in r.permutation(30)[:5]]
        self.o, names = names[0], names[1:]
        q = int(r.randint(1, 4))
        self.ins = [(v, None if path == RF or r.randint(2) else
                     int(r.randint(2, 4))) for v in names[:q]]
        self.distargs = {'inputs': {
            'stattypes': ['numerical' if k is None else 'categorical'
                          for _v, k in self.ins],
            'statargs': [{} if k is None else {'k': k}
                         for _v, k in self.ins]}}
        self.k = int(r.randint(2, 4))
        if path == RF:
            self.distargs['k'] = self.k
        self.hypers = None
        if path == LR:
            p = 1 + sum(1 if k is None else k for _v, k in self.ins)
            A = r.normal(size=(p, p)) * .4
            self.a, self.b = float(r.gamma(3.) + .3), float(r.gamma(3.) + .3)
            self.mu, self.V = r.normal(size=p), A.dot(A.T) + np.eye(p)
            self.hypers = {'a': self.a, 'b': self.b}
            if r.randint(2):
                self.hypers.update(mu=self.mu, V=self.V)
            else:
                self.mu, self.V = np.zeros(p), np.eye(p)
        self.m = E.get(path)([self.o], [v for v, _k in self.ins],
                             hypers=self.hypers, distargs=self.distargs,
                             rng=np.random.RandomState(r.randint(2 ** 31)))
        n = int(r.randint(0, 8)) if n is None else n
        self.rows = {}
        self.grow(n)

    def given(self):
        r = self.r
        d = dict((v, float(r.normal()) if k is None else int(r.randint(k)))
                 for v, k in self.ins)
        ks = list(d)
        return dict((ks[i], d[ks[i]]) for i in r.permutation(len(ks)))

    def value(self):
        return int(self.r.randint(self.k)) if self.path == RF else float(
            self.r.normal() * 2)

    def grow(self, n):
        """n rows more, some of the old ones gone."""
        for _ in range(n):
            i = int(self.r.randint(100))
            if i in self.rows:
                self.m.unincorporate(i)
                del self.rows[i]
            x, g = self.value(), self.given()
            self.m.incorporate(i, {self.o: x}, dict(g))
            self.rows[i] = (x, g)
            if len(self.rows) > 2 and self.r.randint(4) == 0:
                j = list(self.rows)[self.r.randint(len(self.rows))]
                self.m.unincorporate(j)
                del self.rows[j]
        self.E.note('rows', dict(self.rows))

    def code(self, g):
        """The covariates: in the linear model, 1 and the inputs, a category
        of k as k indicators; in least squares, k - 1 indicators."""
        c = [1.] if self.path == LR else []
        for v, k in self.ins:
            if k is None:
                c.append(g[v])
            else:
                top = k if self.path == LR else k - 1
                c += [1. if g[v] == j else 0. for j in range(top)]
        return c

    def fresh(self):
        while True:
            i = int(self.r.randint(1000))
            if i not in self.rows:
                return i

    # the conjugate model

    def posterior(self):
        Y = np.array([self.code(g) for _x, g in self.rows.values()]).reshape(
            len(self.rows), len(self.mu))
        x = np.array([x for x, _g in self.rows.values()])
        Vi = np.linalg.inv(self.V)
        Vn = np.linalg.inv(Vi + Y.T.dot(Y))
        mn = Vn.dot(Vi.dot(self.mu) + Y.T.dot(x))
        an = self.a + len(x) / 2.
        d = x - Y.dot(self.mu)
        S = np.eye(len(x)) + Y.dot(self.V).dot(Y.T)
        bn = self.b + .5 * d.dot(np.linalg.solve(S, d))
        return an, bn, mn, Vn

    def score(self):
        if not self.rows:
            return 0.
        Y = np.array([self.code(g) for _x, g in self.rows.values()])
        x = np.array([x for x, _g in self.rows.values()])
        S = np.eye(len(x)) + Y.dot(self.V).dot(Y.T)
        return st.multivariate_t.logpdf(
            x, Y.dot(self.mu), S * self.b / self.a, df=2 * self.a)

    def predictive(self, g):
        an, bn, mn, Vn = self.posterior()
        y = np.array(self.code(g))
        return st.t(2 * an, y.dot(mn), math.sqrt(
            bn / an * (1 + y.dot(Vn).dot(y))))


@bounded('C24', 'law/linear regression',
         [LR + '.logpdf', LR + '.logpdf_score', LR + '.posterior_hypers',
          LR + '.calc_log_Z', LR + '.simulate', LR + '.preprocess'],
         trials=60, bound=BOUND)
def _(E):
    """Score, density and samples are those of the conjugate model."""
    C = Case(E, LR)
    m = C.m
    E.ensure_eq('the score', m.logpdf_score(), C.score(), tol=1e-6)
    for _ in range(3):
        x, g = C.value(), C.given()
        E.ensure_eq('the density', m.logpdf(C.fresh(), {C.o: x}, None, g),
                    C.predictive(g).logpdf(x), tol=1e-6)
    g = C.given()
    out = m.simulate(C.fresh(), [C.o], None, g, 400)
    E.ensure('as many samples as asked for', len(out) == 400 and all(
        list(s) == [C.o] for s in out))
    xs = [s[C.o] for s in out]
    E.ensure('samples of the predictive law', fits(
        xs, C.predictive(g).cdf), (np.mean(xs), np.std(xs)))
    one = m.simulate(C.fresh(), [C.o], None, g)
    E.ensure('one sample', list(one) == [C.o])


@bounded('C24', 'transition/linear regression',
         [LR + '.transition', LR + '.transition_hypers',
          LR + '.construct_hyper_grids', LR + '.set_hypers'],
         trials=8, bound=BOUND)
def _(E):
    """The hypers move on their grid, the rows and the rest stay, and the
    score is that of the new hypers."""
    C = Case(E, LR, n=int(E.r.randint(2, 6)))
    m = C.m
    before = copy.deepcopy((dict(m.data.x), dict(m.data.Y), m.N))
    m.transition(N=int(E.r.randint(1, 3)))
    E.ensure('the rows are kept', before == (
        dict(m.data.x), dict(m.data.Y), m.N))
    h = m.get_hypers()
    grids = m.construct_hyper_grids(list(m.data.x.values()), n_grid=30)
    for k in ('a', 'b'):
        E.ensure('hyper %s of its grid' % k, any(
            abs(h[k] - v) < 1e-9 * abs(v) for v in grids[k]), h[k])
    C.a, C.b = h['a'], h['b']
    E.ensure_eq('the score of the new hypers', m.logpdf_score(), C.score(),
                tol=1e-6)


@bounded('C24', 'hypers/linear regression',
         [LR + '.transition_hypers', LR + '.construct_hyper_grids'],
         trials=2, bound='one data set, 300 transitions')
def _(E):
    """Transitions of the hypers have their posterior on the grid as law."""
    C = Case(E, LR, n=3)
    m = C.m
    rows = list(m.data.x.values())
    grids = m.construct_hyper_grids(rows, n_grid=30)
    a0, b0 = C.a, C.b

    def weights(name):
        lp = []
        for v in grids[name]:
            m.set_hypers(dict({'a': a0, 'b': b0}, **{name: v}))
            C.a, C.b = m.a, m.b
            lp.append(C.score())
        p = np.exp(np.array(lp) - max(lp))
        return p / p.sum()
    pa = weights('a')
    counts = np.zeros(30)
    got = []
    for _ in range(300):
        m.set_hypers({'a': a0, 'b': b0})
        m.transition_hypers(N=1)
        got.append(m.a)
    E.ensure('grid values only', all(
        np.min(np.abs(grids['a'] - v)) < 1e-9 * v for v in got))
    # the order of the two hypers is random: a is drawn first, given the old
    # b, in half of the transitions
    pb = weights('b')
    mix = np.zeros(30)
    for j in range(30):
        lp = []
        for v in grids['a']:
            C.a, C.b = v, grids['b'][j]
            lp.append(C.score())
        p = np.exp(np.array(lp) - max(lp))
        mix += pb[j] * p / p.sum()
    mix /= mix.sum()
    law = .5 * pa + .5 * mix
    edges = np.searchsorted(np.cumsum(law), np.linspace(0, 1, 9)[1:-1])
    idx = [int(np.argmin(np.abs(grids['a'] - v))) for v in got]
    cut = np.digitize(idx, edges, right=True)
    masses = np.array([law[np.digitize(np.arange(30), edges, right=True)
                           == i].sum() for i in range(8)])
    E.ensure('the posterior on the grid', frequencies(
        np.bincount(cut, minlength=8), masses))


@bounded('C24', 'law/least squares',
         [OL + '.transition', OL + '.logpdf', OL + '.simulate',
          OL + '.preprocess'], trials=60,
         bound=BOUND)
def _(E):
    """After a transition: a normal law around the least squares fit, whose
    spread is the root mean square of the residuals."""
    C = Case(E, OL, n=int(E.r.randint(8, 14)))
    m = C.m
    m.transition()
    Y = np.array([[1.] + C.code(g) for _x, g in C.rows.values()])
    x = np.array([x for x, _g in C.rows.values()])
    w, _, rank, _ = np.linalg.lstsq(Y, x, rcond=None)
    noise = math.sqrt(np.mean((x - Y.dot(w)) ** 2))
    if noise < 1e-6 or rank < Y.shape[1]:
        return
    E.ensure_eq('the noise', m.noise, noise, tol=1e-6)
    g, v = C.given(), C.value()
    mean = np.dot([1.] + C.code(g), w)
    E.ensure_eq('the density', m.logpdf(C.fresh(), {C.o: v}, None, g),
                st.norm.logpdf(v, mean, noise), tol=1e-6)
    s = m.simulate(C.fresh(), [C.o], None, g)
    E.ensure('the response of the fit', list(s) == [C.o] and abs(
        s[C.o] - mean) < 12 * noise)
    N = int(E.r.randint(1, 4))
    E.ensure('as many samples as asked for', len(m.simulate(
        C.fresh(), [C.o], None, g, N)) == N)


@bounded('C24', 'law/random forest',
         [RF + '.transition', RF + '.logpdf', RF + '.simulate',
          RF + '.preprocess'], trials=16, bound=BOUND)
def _(E):
    """The densities add up to one and are the law of the samples."""
    C = Case(E, RF)
    m = C.m
    if C.rows and E.r.randint(3):
        m.transition()
    g = C.given()
    p = [math.exp(m.logpdf(C.fresh(), {C.o: v}, None, g))
         for v in range(C.k)]
    E.ensure_eq('the densities add up', sum(p), 1., tol=1e-9)
    E.ensure('no density elsewhere', all(
        m.logpdf(C.fresh(), {C.o: v}, None, g) == -float('inf')
        for v in (-1, C.k, .5)))
    f = m.regressor
    if hasattr(f, 'classes_'):
        y = [[g[v] for v in sorted(g)]]
        rf = dict(zip(f.classes_, f.predict_proba(y)[0]))
        for v in range(C.k):
            E.ensure_eq('noise and forest', p[v], m.alpha / C.k + (
                1 - m.alpha) * rf.get(v, 0), tol=1e-9)
        E.ensure('the forest knows the categories of the rows',
                 set(f.classes_) == set(x for x, _g in C.rows.values()))
    else:
        E.ensure('uniform', all(abs(v - 1. / C.k) < 1e-12 for v in p))
    out = m.simulate(C.fresh(), [C.o], None, g, 120)
    E.ensure('samples by the densities', frequencies(np.bincount(
        [s[C.o] for s in out], minlength=C.k), p))
    E.ensure_eq('the score', m.logpdf_score(), sum(
        m_logpdf(m, C, x, gg) for x, gg in C.rows.values()), tol=1e-9)


def m_logpdf(m, C, x, g):
    return m.logpdf(C.fresh(), {C.o: x}, None, g)


@bounded('C24', 'saved', [p + '.' + f for p in (LR, OL, RF)
                          for f in ('to_metadata', 'from_metadata')],
         trials=40, bound=BOUND)
def _(E):
    """A component restored from its metadata (also through JSON) has the
    same rows and densities, and goes on on its own."""
    path = [LR, OL, RF][int(E.r.randint(3))]
    # least squares without residuals has no density
    C = Case(E, path, n=int(E.r.randint(1, 8)) + (8 if path == OL else 0))
    m = C.m
    if path == OL or E.r.randint(2):
        m.transition()
        if path == LR:
            C.a, C.b = m.a, m.b
    meta = m.to_metadata()
    if path == LR and E.r.randint(2):
        meta = json.loads(json.dumps(meta))
    module, name = meta['factory']
    E.ensure('the factory', (module, name) == tuple(path.split(':')))
    s = E.get(path).from_metadata(meta, rng=np.random.RandomState(3))
    E.ensure('the rows', dict(s.data.x) == dict(m.data.x) and dict(
        s.data.Y) == dict(m.data.Y) and s.N == m.N)
    g, x = C.given(), C.value()
    r = C.fresh()
    E.ensure_eq('the densities', s.logpdf(r, {C.o: x}, None, g),
                m.logpdf(r, {C.o: x}, None, g), tol=1e-9)
    if path != OL:
        E.ensure_eq('the score', s.logpdf_score(), m.logpdf_score(),
                    tol=1e-9)
    before = (dict(m.data.x), m.N)
    s.incorporate(r, {C.o: x}, g)
    s.unincorporate(list(C.rows)[0])
    E.ensure('the original is left alone', before == (dict(m.data.x), m.N))
    if path == RF:
        E.ensure('the categories of the rows', list(s.counts) == [
            sum(1 for v in s.data.x.values() if v == i)
            for i in range(C.k)] and list(m.counts) == [
            sum(1 for v in m.data.x.values() if v == i)
            for i in range(C.k)])
