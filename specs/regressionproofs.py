"""C24: components that predict one variable from others: what they keep of
their rows, and how their densities follow from the posterior."""
import math

import numpy as np

from specs.contracts import draw_contracts
from vf.spec import unit, Stub

LR = 'cgpm.regressions.linreg:LinearRegression'
OL = 'cgpm.regressions.ols:OrdinaryLeastSquares'
RF = 'cgpm.regressions.forest:RandomForest'
VE = (ValueError,)
KINDS = (('linear regression', LR), ('least squares', OL),
         ('random forest', RF))


class World(Stub):
    """A component of arbitrarily many rows: preprocess is known by its
    contract (the response and the code of the covariates, or an error)."""

    def __init__(self, E, path):
        self.E, self.forest = E, path == RF
        self.m = m = E.bare(E.get(path))
        self.value, self.code = E.func('value'), E.func('code')
        if self.forest:
            self.value = E.func('category', sort='int')
            if not E.symbolic:
                self.value = lambda k, f=self.value: f(k) % 3
        self.X = E.map('rows', self.value)
        m.data = E.get(path.split(':')[0] + ':Data')(
            x=E.copy(self.X), Y=E.map_over(self.X, self.code))
        self.Y = E.copy(m.data.Y)
        m.N = self.N = E.length(E.keys(self.X))
        m.outputs, m.inputs = [7], [4]
        m.a, m.b = E.real('a', lo=0), E.real('b', lo=0)
        m.mu, m.V = Stub(), Stub()
        m.rng = E.rng()
        self.o = m.outputs[0]
        count = E.func('count', sort='int')
        self.counts = E.map('counts', count, keys=None if E.symbolic
                            else [0, 1, 2])
        m.counts = E.copy(self.counts)
        m.k = 3
        self.x = E.int('a category', lo=0, hi=3) if self.forest \
            else E.real('x')
        if self.forest:
            E.assume(E.has(self.counts, self.x))
        self.y = E.real('code of the inputs')
        self.bad = False

    def contract(self, targets, inputs):
        E = self.E

        def preprocess(t, i):
            E.ensure('the targets are coded', t is targets)
            E.ensure('the inputs are coded', i is inputs)
            if self.bad:
                raise ValueError('contract')
            return (self.x if t else None), self.y
        E.replace(self.m, 'preprocess', preprocess)

    def same(self, what, x=None, y=None, n=None):
        E, m = self.E, self.m
        E.same_maps(what + ': responses', m.data.x,
                    self.X if x is None else x)
        E.same_maps(what + ': covariates', m.data.Y,
                    self.Y if y is None else y)
        E.ensure_eq(what + ': number of rows', m.N,
                    self.N if n is None else n)


def bookkeeping(kind, path):
    @unit('C24', 'incorporate/' + kind, [path + '.incorporate'], trials=120)
    def _(E):
        """One row more, the others as they were; a row that is there or
        cannot be coded is rejected and changes nothing."""
        W = World(E, path)
        m = W.m
        rowid = E.int('rowid')
        observation = {W.o: W.x}
        inputs = {m.inputs[0]: E.real('given')}
        W.contract(observation, inputs)
        if E.has(W.X, rowid):
            E.raises((AssertionError, ValueError),
                     lambda: m.incorporate(rowid, observation, inputs))
            W.same('a row that is there')
            E.same_maps('counts are kept', m.counts, W.counts)
            return
        W.bad = E.flag('cannot be coded')
        if W.bad:
            E.raises(VE, lambda: m.incorporate(rowid, observation, inputs))
            W.same('a row that cannot be coded')
            E.same_maps('counts are kept', m.counts, W.counts)
            return
        m.incorporate(rowid, observation, inputs)
        W.same('after', E.dict(E.pairs(W.X) + [(rowid, W.x)]),
               E.dict(E.pairs(W.Y) + [(rowid, W.y)]), W.N + 1)
        if W.forest:
            E.same_maps('one more of its category', m.counts, E.dict(
                E.pairs(W.counts) + [(W.x, W.counts[W.x] + 1)]))

    @unit('C24', 'unincorporate/' + kind, [path + '.unincorporate'],
          trials=120)
    def _(E):
        """Exactly that row is gone; an unknown row is rejected and changes
        nothing."""
        W = World(E, path)
        m = W.m
        rowid = E.int('rowid')
        if not E.has(W.X, rowid):
            E.raises(VE, lambda: m.unincorporate(rowid))
            W.same('an unknown row')
            return
        if W.forest:
            c = W.X[rowid]
            E.assume(E.has(W.counts, c))
        m.unincorporate(rowid)
        rest = lambda M: E.dict(E.filtered(
            lambda t: E.Not(E.eq(t[0], rowid)), E.pairs(M)))
        W.same('after', rest(W.X), rest(W.Y), W.N - 1)
        if W.forest:
            E.same_maps('one less of its category', m.counts, E.dict(
                E.pairs(W.counts) + [(c, W.counts[c] - 1)]))

    @unit('C24', 'simulate/observed row/' + kind, [path + '.simulate'],
          trials=60)
    def _(E):
        """A row that is there repeats its response, as often as asked."""
        W = World(E, path)
        m = W.m
        rowid = E.pick('rowid', W.X)
        N = E.choice('N', [None, 1, 3])
        inputs = E.choice('inputs', [None, {m.inputs[0]: 0}])
        out = m.simulate(rowid, [W.o], None, inputs, N)
        if N is None:
            out = [out]
        E.ensure('as many samples as asked for', len(out) == (N or 1))
        for s in out:
            E.ensure('only the response', list(s) == [W.o])
            E.ensure_eq('its own response', s[W.o], W.X[rowid])
        W.same('the rows are kept')


for _k, _p in KINDS:
    bookkeeping(_k, _p)


class Linear(World):
    """The linear model over the contracts of its posterior (a function of
    the rows) and of the normaliser (a function of the posterior)."""

    def __init__(self, E):
        World.__init__(self, E, LR)
        m = self.m
        if not E.symbolic:
            # the real posterior, of two covariates
            p = int(E.r.randint(1, 4))
            vec = lambda: [1] + [float(v) for v in E.r.normal(size=p - 1)]
            self.Y = type(m.data.Y)((k, vec()) for k in m.data.Y)
            m.data = m.data._replace(Y=self.Y.copy())
            self.y = vec()
            m.mu = E.r.normal(size=p)
            A = E.r.normal(size=(p, p))
            m.V = A.dot(A.T) + math.sqrt(.5) * np.eye(p)
            m.V = (m.V + m.V.T) / 2
            return
        m.V = np.eye(2)
        Z = dict((k, E.real('Z ' + k)) for k in ('prior', 'rows', 'more'))
        made = {}

        def hypers(N, Y, x, a, b, mu, V):
            E.ensure('the prior of the model', a is m.a and b is m.b
                     and mu is m.mu and V is m.V)
            more = not E.truth(N == self.N)
            E.ensure_eq('the number of rows', N, self.N + more)
            E.family_eq('the responses of the rows', x, E.mapped(
                lambda t: t[1], E.pairs(self.X)) + [self.x] * more)
            E.family_eq('the covariates of the rows', Y, E.mapped(
                lambda t: t[1], E.pairs(self.Y)) + [self.y] * more)
            k = 'more' if more else 'rows'
            if k not in made:
                made[k] = (E.real('a ' + k, lo=0), E.real('b ' + k, lo=0),
                           'mean ' + k, 'V ' + k)
            return made[k]

        def log_Z(a, b, V_inv):
            if a is m.a:
                E.ensure('the prior', b is m.b)
                return Z['prior']
            k = [k for k, v in made.items() if a is v[0]]
            E.ensure('the posterior', k and b is made[k[0]][1]
                     and V_inv is made[k[0]][3])
            return Z[k[0]]
        E.stub(LR + '.posterior_hypers', hypers)
        E.stub(LR + '.calc_log_Z', log_Z)


@unit('C24', 'chain rule/linear regression',
      [LR + '.logpdf', LR + '.logpdf_score', LR + '.calc_predictive_logp',
       LR + '.calc_logpdf_marginal'], trials=150)
def _(E):
    """The score grows by the density of each row that is added."""
    W = Linear(E)
    m = W.m
    rowid = E.int('rowid')
    E.assume(not E.has(W.X, rowid))
    targets, inputs = {W.o: W.x}, {4: 0}
    W.contract(targets, inputs)
    before = m.logpdf_score()
    density = m.logpdf(rowid, targets, None, inputs)
    W.same('queries leave the rows')
    m.incorporate(rowid, targets, inputs)
    E.ensure_eq('the score grows by the density', m.logpdf_score() - before,
                density, tol=1e-6)


@unit('C24', 'logpdf/observed row', [LR + '.logpdf', OL + '.logpdf',
                                     RF + '.logpdf'], trials=60)
def _(E):
    """A row that is there has no density."""
    W = World(E, E.choice('component', [LR, OL, RF]))
    rowid = E.pick('rowid', W.X)
    targets, inputs = {W.o: W.x}, {4: 0}
    W.contract(targets, inputs)
    E.raises((AssertionError, ValueError), lambda: W.m.logpdf(
        rowid, targets, None, inputs))
    W.same('the rows are kept')


@unit('C24', 'logpdf/least squares', [OL + '.logpdf'], trials=100)
def _(E):
    """A normal law around the prediction."""
    W = World(E, OL)
    m = W.m
    mean, noise = E.real('mean'), E.real('noise', lo=0)
    m.noise = noise
    rowid = E.int('rowid')
    E.assume(not E.has(W.X, rowid))
    targets, inputs = {W.o: W.x}, {4: 0}
    W.contract(targets, inputs)

    class Regressor(Stub):
        def predict(self, rows):
            E.ensure('one row of covariates', len(rows) == 1)
            E.ensure_eq('the covariates', rows[0], W.y)
            return [mean]
    m.regressor = Regressor()
    z = (W.x - mean) / noise
    E.ensure_eq('the normal density', m.logpdf(rowid, targets, None, inputs),
                -E.log(noise) - E.log(2 * E.pi) / 2 - z * z / 2, tol=1e-8)


@unit('C24', 'score/random forest', [RF + '.logpdf_score',
                                     RF + '.calc_log_likelihood'],
      trials=60)
def _(E):
    """The score is the sum of the densities of the rows."""
    W = World(E, RF)
    m = W.m
    m.alpha, m.regressor = E.real('alpha', lo=0, hi=1), Stub()
    density = E.func('density')

    def predictive(x, y, regressor, counts, alpha):
        E.ensure('the model', regressor is m.regressor and alpha is m.alpha)
        E.ensure('the categories', counts is m.counts)
        return density(x, y)
    E.patch(RF + '.calc_predictive_logp', predictive)
    E.ensure_eq('the sum over the rows', m.logpdf_score(), E.sum(
        E.mapped(lambda k: density(W.X[k], W.Y[k]), E.keys(W.X))))


@unit('C24', 'simulate/random forest', [RF + '.simulate'], trials=60)
def _(E):
    """A category is drawn by its density."""
    W = World(E, RF)
    m = W.m
    rowid = E.int('rowid')
    E.assume(not E.has(W.X, rowid))
    draw_contracts(E)
    k = m.k = E.choice('k', [1, 2, 4])
    inputs = {4: E.real('given')}
    lp = [E.real('lp%d' % i) for i in range(k)]
    asked = []

    def logpdf(r, targets, constraints, given):
        E.ensure('the row', r is rowid)
        E.ensure('its inputs', given is inputs and not constraints)
        E.ensure('the response', list(targets) == [W.o])
        asked.append(targets[W.o])
        return lp[targets[W.o]]
    E.replace(m, 'logpdf', logpdf)
    s = m.simulate(rowid, [W.o], None, inputs)
    E.ensure('every category is weighed', sorted(asked) == list(range(k)))
    E.ensure('only the response', list(s) == [W.o])
    draws = m.rng.draws
    if k > 1 or draws:
        E.same_law('by the densities', draws[-1], list(range(k)),
                     lambda i: lp[i])
        E.ensure('the draw is the sample', E.eq(s[W.o], draws[-1][2]))
    else:
        E.ensure_eq('the only category', s[W.o], 0)


@unit('C24', 'density/random forest', [RF + '.calc_predictive_logp'],
      trials=150)
def _(E):
    """Uniform noise mixed with the probability of the forest, which has none
    for a category it has not seen; uniform before the forest has learned."""
    k = E.choice('k', [1, 2, 4])
    alpha = E.real('alpha', lo=0, hi=1)
    classes = E.choice('seen', [None, (0,), (0, 2), (1, 3), (0, 1, 2, 3)])
    if classes is not None:
        classes = [c for c in classes if c < k]
        E.assume(len(classes) > 0)
    lp = [E.real('lp%d' % i, hi=0) for i in range(4)]
    y = [E.real('covariate')]

    class Forest(Stub):
        def predict_log_proba(self, rows):
            E.ensure('one row of covariates', len(rows) == 1
                     and rows[0] is y)
            return [[lp[c] for c in classes]]
    f = Forest()
    if classes is not None:
        f.classes_ = np.asarray(classes)
    else:
        class Blank(object):
            pass
        f = Blank()
    x = E.choice('x', list(range(k)))
    out = E.get(RF).calc_predictive_logp(x, y, f, [0] * k, alpha)
    if classes is None:
        want = -E.log(k)
    elif x not in classes:
        want = E.log(alpha / k)
    else:
        want = E.log(alpha / k + (1 - alpha) * E.exp(lp[x]))
    E.ensure_eq('the mixture', out, want, tol=1e-9)


@unit('C24', 'transition/random forest', [RF + '.transition_params',
                                          RF + '.transition'], trials=20)
def _(E):
    """The noise is drawn given the rows and the forest; then the forest
    learns all rows."""
    W = World(E, RF)
    m = W.m
    m.alpha = E.real('alpha', lo=0, hi=1)
    score = E.func('score')
    fits, asked, drawn = [], [], []
    some = E.choice('some noise', [1, 17, 45])

    def flip(logp, array=None, size=None, rng=None):
        """Contract of log_pflip (C22)."""
        E.ensure('one draw from the generator of the component',
                 rng is m.rng and size is None)
        grid = [float(a) for a in array]
        E.ensure('the noise is a proportion', len(grid) > 1 and all(
            0 < a < 1 for a in grid))
        E.ensure('a weight for each value', len(logp) == len(grid))
        for a, l in zip(grid, logp):
            E.ensure_eq('the weight is the score', l, score(a))
        drawn.append(E.pick('noise', dict((a, 0) for a in grid))
                     if not E.symbolic else E.real('noise'))
        return drawn[-1]
    E.patch('cgpm.utils.general:log_pflip', flip)

    class Forest(Stub):
        def fit(self, Y, x):
            E.family_eq('all covariates', Y, E.mapped(
                lambda t: t[1], E.pairs(W.Y)))
            E.family_eq('all responses', x, E.mapped(
                lambda t: t[1], E.pairs(W.X)))
            fits.append(len(drawn))
    m.regressor = Forest()

    def likelihood(x, Y, regressor, counts, alpha):
        E.ensure('the forest', regressor is m.regressor)
        asked.append(0)
        if len(asked) == some:
            E.family_eq('the responses scored', x, E.mapped(
                lambda t: t[1], E.pairs(W.X)))
            E.family_eq('the covariates scored', Y, E.mapped(
                lambda t: t[1], E.pairs(W.Y)))
        return score(alpha)
    E.patch(RF + '.calc_log_likelihood', likelihood)
    N = E.choice('N', [None, 1, 2, 3])
    m.transition(N)
    rounds = N or 1
    E.ensure('one draw of the noise in a round', len(drawn) == rounds)
    E.ensure_eq('the noise drawn last', m.alpha, drawn[-1])
    if E.truth(W.N > 0):
        E.ensure('the forest learns in each round, after the noise',
                 fits == list(range(1, rounds + 1)))
    else:
        E.ensure('nothing to learn', not fits)
    W.same('the rows are kept')


def codes(E, ins):
    """Values of the inputs and their code: a number is itself, a category
    of k is k - 1 indicators (none for the last)."""
    given, code = {}, []
    for v, k in ins:
        if k is None:
            given[v] = E.real('input%d' % v)
            code.append(given[v])
        else:
            c = given[v] = E.choice('input%d' % v, list(range(k)))
            code += [1 if c == j else 0 for j in range(k - 1)]
    return given, code


INPUTS = [[(4, None)], [(4, 3)], [(9, None), (4, 2)],
          [(4, 2), (9, None), (1, 3)]]


def coding(kind, path, lead):
    @unit('C24', 'inputs of unknown size/' + kind, [
        path + '.__init__', path + '._predictor_count'], trials=20,
          bounded='two inputs')
    def _(E):
        """A nominal input needs the number of its categories."""
        args = [E.choice('first', [{'k': 2}, None]),
                E.choice('second', [{'k': 3}, {}, None])]
        make = lambda: E.get(path)([7], [4, 5], distargs={'inputs': {
            'stattypes': ['categorical'] * 2, 'statargs': args}},
            rng=E.rng())
        if all(args):
            # two and three categories, and the unknown one if it is kept
            E.ensure('the covariates', make().p == (4 if not lead else 6))
            return
        E.raises(VE, make, 'refused')

    @unit('C24', 'preprocess/' + kind,
          [path + '.preprocess', path + '._predictor_count',
           path + '.__init__', 'cgpm.utils.data:dummy_code'], trials=200,
          bounded='up to three inputs, of up to three categories')
    def _(E):
        """The response and the code of the inputs in their order; an
        unknown, missing or superfluous input or a missing response is
        rejected."""
        ins = E.choice('inputs', INPUTS)
        # the linear model keeps one more indicator, for unknown categories
        kk = lambda k: k - 1 if lead else k
        if lead:
            E.assume(all(k != 1 for _v, k in ins))
        m = E.get(path)([7], [v for v, _k in ins], distargs={'inputs': {
            'stattypes': ['numerical' if k is None else 'categorical'
                          for _v, k in ins],
            'statargs': [{} if k is None else {'k': kk(k)}
                         for _v, k in ins]}}, rng=E.rng())
        given, code = codes(E, ins)
        x = E.real('x')
        order = E.choice('order', [1, -1])
        given = dict(list(given.items())[::order])
        case = E.choice('case', ['fine', 'no response', 'missing input',
                                 'more inputs', 'output as input', 'nan',
                                 'wrong target', 'bad category'])
        if case == 'fine' or case == 'no response':
            out, y = m.preprocess({7: x} if case == 'fine' else None, given)
            if case == 'fine':
                E.ensure_eq('the response', out, x)
            else:
                E.ensure('no response', out is None)
            y = list(y)
            want = ([1] if lead else []) + code
            E.ensure('the length of the code', len(y) == len(want))
            for i, (a, b) in enumerate(zip(y, want)):
                E.ensure_eq('code %d' % i, a, b)
            E.ensure('the number of covariates',
                     m.p == len(code) + 1)
            return
        targets = {7: x}
        if case == 'missing input':
            del given[ins[0][0]]
        elif case == 'more inputs':
            given[33] = 0
        elif case == 'output as input':
            given[7] = x
        elif case == 'nan':
            targets[7] = E.choice('no value', [None, float('nan')])
        elif case == 'wrong target':
            targets = {8: x}
        else:
            E.assume(any(k for _v, k in ins))
            v, k = [i for i in ins if i[1]][0]
            given[v] = E.choice('no category', [-1, k, .5])
        E.raises((ValueError, TypeError) if case == 'bad category' else VE,
                 lambda: m.preprocess(targets, given), case)


coding('linear regression', LR, True)
coding('least squares', OL, False)


@unit('C24', 'preprocess/random forest', [RF + '.preprocess'], trials=200)
def _(E):
    """The category and the inputs, always in one order; values that are no
    category, and missing inputs, are rejected."""
    m = E.bare(E.get(RF))
    m.outputs, m.inputs, m.p = [7], E.choice('inputs', [[4], [9, 4, 6]]), None
    m.p = len(m.inputs)
    m.k = E.choice('k', [2, 4])
    x = E.choice('x', list(range(m.k)))
    given = dict((v, E.real('input%d' % v)) for v in m.inputs)
    again = dict(list(given.items())[::-1])
    out, y = m.preprocess({7: x}, given)
    E.ensure('the category', out == x and isinstance(out, int))
    E.ensure('all inputs', len(y) == m.p)
    other = dict((v, E.real('other%d' % v)) for v in m.inputs)
    _, z = m.preprocess({7: x}, again)
    _, w = m.preprocess({7: x}, other)
    for i in range(m.p):
        E.ensure_eq('one order', y[i], z[i])
    ok = False
    import itertools
    for p in itertools.permutations(m.inputs):
        if all(y[i] is given[v] and w[i] is other[v]
               for i, v in enumerate(p)):
            ok = True
    E.ensure('each input at its place', ok)
    case = E.choice('case', ['nan', 'missing input', 'more inputs',
                             'output as input', 'nan input', 'category'])
    t, g = {7: x}, dict(given)
    if case == 'nan':
        t[7] = E.choice('no value', [None, float('nan')])
    elif case == 'missing input':
        del g[m.inputs[0]]
    elif case == 'more inputs':
        g[33] = 0
    elif case == 'output as input':
        g[7] = 0
    elif case == 'nan input':
        g[m.inputs[0]] = float('nan')
    else:
        t[7] = E.choice('no category', [-1, m.k, .5, 1.5])
        E.raises((IndexError,), lambda: m.preprocess(t, g), case)
        return
    E.raises(VE, lambda: m.preprocess(t, g), case)


def conjugate(p, n):
    """The posterior given n rows of p predictors."""
    @unit('C24', 'posterior/%d predictors, %d rows' % (p, n),
          [LR + '.posterior_hypers'], trials=60)
    def _(E):
        """The parameters of the normal-inverse-gamma posterior."""
        x = [E.real('x%d' % i) for i in range(n)]
        Y = [[E.real('y%d.%d' % (i, j)) for j in range(p)] for i in range(n)]
        a, b = E.real('a', lo=0), E.real('b', lo=0)
        mu = [E.real('mu%d' % j) for j in range(p)]
        mu = np.array(mu)
        V, P = precision(E, p)
        an, bn, mn, Pn = E.get(LR).posterior_hypers(n, Y, x, a, b, mu, V)
        E.ensure_eq('the shape', an, a + n / 2., tol=1e-9)
        R = range(p)
        for i in R:
            for j in R:
                E.ensure_eq('the precision', Pn[i][j], P[i][j] + sum(
                    Y[r][i] * Y[r][j] for r in range(n)), tol=1e-6)
        w = [sum(P[i][j] * mu[j] for j in R) + sum(
            Y[r][i] * x[r] for r in range(n)) for i in R]
        for i in R:
            E.ensure_eq('the mean', sum(Pn[i][j] * mn[j] for j in R), w[i],
                        tol=1e-6)
        E.ensure_eq(
            'the rate', bn, b + (sum(
                mu[i] * P[i][j] * mu[j] for i in R for j in R) + sum(
                v * v for v in x) - sum(mn[i] * w[i] for i in R)) / 2.,
            tol=1e-6)


def precision(E, p):
    """A covariance matrix and its inverse."""
    if p == 1:
        v = E.real('v', lo=0)
        return np.array([[v]]), [[1 / v]]
    s, t = E.real('s', lo=0), E.real('t', lo=0)
    c = E.real('c')
    if not E.symbolic:
        c = (s * t) ** .5 * math.tanh(c) * .9
    d = s * t - c * c
    E.assume(d > 0)
    return np.array([[s, c], [c, t]]), [[t / d, -c / d], [-c / d, s / d]]


for _p, _n in ((1, 0), (1, 1), (1, 2)):
    conjugate(_p, _n)


def evidence(p):
    @unit('C24', 'normaliser/%d predictors' % p, [LR + '.calc_log_Z'],
          trials=60)
    def _(E):
        """The log normaliser of the normal-inverse-gamma law."""
        a, b = E.real('a', lo=0), E.real('b', lo=0)
        _, P = precision(E, p)
        det = P[0][0] if p == 1 else P[0][0] * P[1][1] - P[0][1] * P[1][0]
        E.assume(det > 0)
        E.ensure_eq('the normaliser', E.get(LR).calc_log_Z(a, b, np.array(P)),
                    E.lgamma(a) - E.log(det) / 2. - a * E.log(b), tol=1e-6)


for _p in (1, 2):
    evidence(_p)
