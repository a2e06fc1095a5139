"""Random mixtures (concrete), and the textbook law of a Dirichlet process
mixture of components.  The density of a component given its rows is taken
from the component itself: its contract is C04."""
import math

import numpy as np

from specs import exactlaw
from specs.prims import PRIMS

NAN = float('nan')
INF = float('inf')
VIEW = 'cgpm.mixtures.view:View'

COLLAPSED = ('normal', 'bernoulli', 'categorical', 'poisson', 'exponential',
             'geometric', 'lognormal', 'vonmises')
DISCRETE = ('bernoulli', 'categorical')


def hypers(E, cctype):
    p = lambda: float(E.r.gamma(2.) + .05)
    if cctype in ('normal', 'lognormal'):
        return {'m': float(E.r.normal()), 'r': p(), 's': p(), 'nu': p()}
    if cctype in ('poisson', 'exponential', 'geometric'):
        return {'a': p(), 'b': p()}
    if cctype == 'bernoulli':
        return {'alpha': p(), 'beta': p()}
    if cctype in ('categorical', 'crp'):
        return {'alpha': p()}
    if cctype == 'vonmises':
        return {'a': p(), 'b': float(E.r.uniform(.1, 6.2)), 'k': p()}
    if cctype == 'beta':
        return {'mu': p(), 'alpha': p(), 'beta': p()}
    raise ValueError(cctype)


def distargs(E, cctype):
    return {'k': int(E.r.randint(2, 5))} if cctype == 'categorical' else None


def value(E, cctype, da):
    r = E.r
    if cctype == 'normal':
        return float(r.normal() * 3)
    if cctype == 'bernoulli':
        return int(r.randint(2))
    if cctype == 'categorical':
        return int(r.randint(da['k']))
    if cctype in ('poisson', 'geometric'):
        return int(r.poisson(3))
    if cctype in ('exponential', 'lognormal'):
        return float(r.gamma(2.) + .01)
    if cctype == 'vonmises':
        return float(r.uniform(.01, 6.27))
    if cctype == 'beta':
        return float(r.uniform(.02, .98))
    raise ValueError(cctype)


def component(E, cctype, h, da, rows, params=None):
    """A fresh component holding the rows; `rows` is a list of values."""
    p = PRIMS[cctype]
    o = p.get(E)([0], [], hypers=dict(h), distargs=da, params=params,
                 rng=np.random.RandomState(0))
    for i, x in enumerate(rows):
        o.incorporate(i, {0: x})
    return o


def pred(E, cctype, h, da, rows, x, params=None):
    return float(component(E, cctype, h, da, rows, params).logpdf(
        10 ** 6, {0: x}))


def isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


class Mix(object):
    """A concrete View and the data it was built from."""

    def __init__(self, E, n=None, cols=None, types=COLLAPSED, pnan=.2,
                 labels=None, alpha=None, zvar=None, sep=None, build=True):
        r = E.r
        self.E = E
        n = int(r.randint(1, 7)) if n is None else n
        m = int(r.randint(0, 4)) if cols is None else cols
        self.n = n
        names = [int(c) for c in r.choice(20, size=m, replace=False)]
        self.z = int(r.randint(1000, 2000)) if zvar is None else zvar
        self.cols = names
        self.cctypes = [types[r.randint(len(types))] for _ in names]
        self.distargs = [distargs(E, t) for t in self.cctypes]
        self.hypers = [hypers(E, t) for t in self.cctypes]
        self.alpha = float(r.gamma(2.) + .05) if alpha is None else alpha
        X = {}
        for c, t, d in zip(names, self.cctypes, self.distargs):
            X[c] = [NAN if r.uniform() < pnan else value(E, t, d)
                    for _ in range(n)]
            if all(isnan(x) for x in X[c]):    # a column has some value
                X[c][r.randint(n)] = value(E, t, d)
        self.X = X
        if labels is None:
            k = int(r.randint(1, n + 1))
            ids = [int(i) for i in r.choice(8, size=k, replace=False)]
            labels = [ids[r.randint(k)] for _ in range(n)]
        self.labels = list(labels)
        E.note('columns', dict(zip(names, self.cctypes)))
        E.note('X', X)
        E.note('Z', self.labels)
        E.note('hypers', self.hypers)
        E.note('alpha', self.alpha)
        if build:
            self.view = self.build()

    def build(self, rng=None, X=None):
        """With no column, the row count must still be visible in X."""
        E = self.E
        X = self.X if X is None else X
        return E.get(VIEW)(
            dict((c, list(v)) for c, v in X.items()) or
            {-7: [0] * self.n},
            outputs=[self.z] + self.cols, alpha=self.alpha,
            cctypes=list(self.cctypes),
            distargs=[None if d is None else dict(d)
                      for d in self.distargs],
            hypers=[dict(h) for h in self.hypers], Zr=list(self.labels),
            rng=E.rng() if rng is None else rng)

    # ---- the textbook
    def rows(self, c, k, labels=None, but=()):
        return [self.X[c][i] for i, z in enumerate(labels or self.labels)
                if z == k and i not in but and not isnan(self.X[c][i])]

    def lp_cell(self, c, x, k, but=()):
        j = self.cols.index(c)
        return pred(self.E, self.cctypes[j], self.hypers[j],
                    self.distargs[j], self.rows(c, k, but=but), x)

    def tables(self):
        """{k: log weight} of a new row; None stands for a fresh cluster."""
        t = dict((k, math.log(c)) for k, c in exactlaw.sizes(
            self.labels).items())
        t[None] = math.log(self.alpha)
        lz = math.log(self.n + self.alpha)
        return dict((k, v - lz) for k, v in t.items())

    def joint(self, cells):
        """{k: log p(z = k, cells)} of a new row."""
        cells = dict((c, x) for c, x in cells.items() if c != self.z)
        return dict((k, w + sum(self.lp_cell(c, x, k)
                                for c, x in cells.items()))
                    for k, w in self.tables().items())

    def logp(self, cells):
        """log p(cells) of a new row; cells may fix the cluster."""
        j = self.joint(cells)
        if self.z in cells:
            k = cells[self.z]
            return j[k if k in set(self.labels) else None]
        m = max(j.values())
        if m == -INF:
            return -INF
        return m + math.log(sum(math.exp(v - m) for v in j.values()))

    def conditional(self, targets, constraints):
        both = dict(targets)
        both.update(constraints)
        return self.logp(both) - (self.logp(constraints)
                                  if constraints else 0.)

    def fresh(self):
        return max(self.labels + [0]) + 1

    def lp_state(self, labels):
        """log p(partition, X)"""
        E = self.E
        lp = exactlaw.log_crp(labels, self.alpha)
        for c, t, h, d in zip(self.cols, self.cctypes, self.hypers,
                              self.distargs):
            for k in set(labels):
                o = component(E, t, h, d, self.rows(c, k, labels))
                lp += float(o.logpdf_score())
        return lp

    def some_cells(self, cols, pz=0.):
        cells = {}
        for c in cols:
            j = self.cols.index(c)
            cells[c] = value(self.E, self.cctypes[j], self.distargs[j])
        return cells

    def split(self):
        """Disjoint targets and constraints."""
        t, c = [], []
        for x in self.cols:
            u = self.E.r.randint(3)
            if u == 0:
                t.append(x)
            elif u == 1:
                c.append(x)
        return t, c


def same(a, b):
    """Equality with nan equal to nan."""
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(
            b, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) or isinstance(
            b, (float, np.floating)):
        try:
            return bool(np.isclose(a, b, rtol=1e-9, atol=1e-12))
        except TypeError:
            return False
    return a == b


def dim_state(d):
    """Everything observable of a column."""
    return dict(
        zr=dict(d.Zr), zi=dict(d.Zi), hypers=dict(d.hypers),
        index=d.index, inputs=list(d.inputs), cctype=d.cctype,
        clusters=dict((k, dict(
            data=data_of(m), stats=m.get_suffstats(),
            hypers=m.get_hypers())) for k, m in d.clusters.items()))


def data_of(m):
    return sorted((r, repr(x)) for r, x in dict(m.data).items()) if hasattr(
        m.data, 'items') else repr(m.data)


def view_state(v):
    return dict(
        outputs=list(v.outputs), Zr=dict(v.Zr()), Nk=dict(v.Nk()),
        alpha=v.alpha(),
        dims=dict((c, dim_state(d)) for c, d in v.dims.items()))


def mix_of(E, z, cols, cctypes, das, hs, alpha, X, labels):
    """The oracle of a view given as data."""
    m = Mix.__new__(Mix)
    m.E, m.z, m.cols = E, z, list(cols)
    m.cctypes, m.distargs, m.hypers = list(cctypes), list(das), list(hs)
    m.alpha, m.X, m.labels = alpha, X, list(labels)
    m.n = len(m.labels)
    return m


STATE = 'cgpm.crosscat.state:State'
ZBASE = 10 ** 7          # documented: cluster variable of view v is 10^7 + v


class St(object):
    """A concrete State and the data it was built from."""

    def __init__(self, E, n=None, cols=None, types=COLLAPSED, pnan=.2,
                 build=True, views=None, ids=None, rows=None, **kw):
        r = E.r
        self.E = E
        self.n = n = int(r.randint(1, 6)) if n is None else n
        m = int(r.randint(1, 5)) if cols is None else cols
        self.cols = [int(c) for c in r.choice(20, size=m, replace=False)]
        self.cctypes = [types[r.randint(len(types))] for _ in self.cols]
        self.distargs = [distargs(E, t) for t in self.cctypes]
        self.hypers = [hypers(E, t) for t in self.cctypes]
        self.alpha = float(r.gamma(2.) + .05)
        self.X = {}
        for c, t, d in zip(self.cols, self.cctypes, self.distargs):
            x = [NAN if r.uniform() < pnan else value(E, t, d)
                 for _ in range(n)]
            if all(isnan(y) for y in x):
                x[r.randint(n)] = value(E, t, d)
            self.X[c] = x
        k = int(r.randint(1, m + 1)) if views is None else views
        ids = [int(i) for i in r.choice(20, size=k, replace=False)] \
            if ids is None else ids
        lab = list(ids) + [ids[r.randint(k)] for _ in range(m - k)]
        r.shuffle(lab)
        self.Zv = dict((c, int(v)) for c, v in zip(self.cols, lab))
        self.Zrv, self.valpha = {}, {}
        for v in sorted(set(self.Zv.values())):
            kk = int(r.randint(1, n + 1))
            rid = [int(i) for i in r.choice(8, size=kk, replace=False)]
            self.Zrv[v] = [rid[r.randint(kk)] for _ in range(n)]
            self.valpha[v] = float(r.gamma(2.) + .05)
        self.kw = kw
        E.note('columns', list(zip(self.cols, self.cctypes)))
        E.note('X', self.X)
        E.note('Zv', self.Zv)
        E.note('Zrv', self.Zrv)
        E.note('alphas', (self.alpha, self.valpha))
        E.note('hypers', self.hypers)
        if build:
            self.state = self.build()

    def build(self, rng=None):
        import numpy as np
        E = self.E
        return E.get(STATE)(
            np.array([[float(self.X[c][i]) for c in self.cols]
                      for i in range(self.n)]),
            outputs=list(self.cols), cctypes=list(self.cctypes),
            distargs=[None if d is None else dict(d) for d in self.distargs],
            hypers=[dict(h) for h in self.hypers], alpha=self.alpha,
            Zv=dict(self.Zv), Zrv=dict((v, list(z)) for v, z in
                                       self.Zrv.items()),
            view_alphas=dict(self.valpha),
            rng=E.rng() if rng is None else rng, **self.kw)

    def mix(self, v, labels=None, cols=None):
        cs = [c for c in self.cols if self.Zv[c] == v] \
            if cols is None else cols
        js = [self.cols.index(c) for c in cs]
        return mix_of(self.E, ZBASE + v, cs, [self.cctypes[j] for j in js],
                      [self.distargs[j] for j in js],
                      [self.hypers[j] for j in js], self.valpha.get(v),
                      self.X, self.Zrv[v] if labels is None else labels)

    def vof(self, c):
        return self.Zv[c] if c in self.Zv else c - ZBASE

    def conditional(self, targets, constraints, rowid=None):
        """log p(targets | constraints) of a new or an observed row."""
        tot = 0.
        for v in sorted(set(self.Zv.values())):
            t = dict((c, x) for c, x in targets.items() if self.vof(c) == v)
            e = dict((c, x) for c, x in constraints.items()
                     if self.vof(c) == v)
            if not t:
                continue
            m = self.mix(v)
            if rowid is None:
                tot += m.conditional(t, e)
            else:
                tot += sum(m.lp_cell(c, x, self.Zrv[v][rowid])
                           for c, x in t.items())
        return tot

    def some_cells(self, cols):
        out = {}
        for c in cols:
            j = self.cols.index(c)
            out[c] = value(self.E, self.cctypes[j], self.distargs[j])
        return out

    def split(self):
        t, c = [], []
        for x in self.cols:
            u = self.E.r.randint(3)
            if u == 0:
                t.append(x)
            elif u == 1:
                c.append(x)
        if not t:
            t = [self.cols[0]]
            c = [x for x in c if x not in t]
        return t, c

    def support(self, c):
        j = self.cols.index(c)
        return range(2 if self.cctypes[j] == 'bernoulli'
                     else self.distargs[j]['k'])

    def lp_state(self, Zv=None, Zrv=None):
        """log p(Zv) + sum of the scores of the views"""
        Zv = self.Zv if Zv is None else Zv
        Zrv = self.Zrv if Zrv is None else Zrv
        lp = exactlaw.log_crp([Zv[c] for c in self.cols], self.alpha)
        for v in sorted(set(Zv.values())):
            m = self.mix(v, labels=Zrv[v],
                         cols=[c for c in self.cols if Zv[c] == v])
            lp += m.lp_state(m.labels)
        return lp


def state_state(s):
    return dict(
        outputs=list(s.outputs), X=dict((c, list(x)) for c, x in s.X.items()),
        Zv=dict(s.Zv()), alpha=s.alpha(), order=list(s.views),
        views=dict((v, view_state(w)) for v, w in s.views.items()))
