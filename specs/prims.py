"""Contracts on cgpm/primitives: one description per distribution, and the
contract units instantiated for each of them.

Invariant of a primitive (I): every sufficient statistic is the fold of the
held data (a finite map from row ids to values of the support), whatever the
number of rows.  `arbitrary` builds an arbitrary object satisfying (I); each
operation is then shown to re-establish it, so (I) holds after every finite
history of operations.
"""
import math

from vf.spec import unit, bounded
from specs.contracts import draw_contracts

OUT = 7     # the output index used in the contracts (its value is immaterial)


class P(object):
    """What the contracts need to know about one primitive."""

    gap = ()            # hyper domains etc. default below
    accepts_observed = False
    discrete = False

    def __init__(self, key, cls, **kw):
        self.key, self.cls = key, cls
        self.path = 'cgpm.primitives.%s' % key
        self.distargs = lambda E: None
        self.params = lambda E: None
        self.__dict__.update(kw)

    def get(self, E):
        return getattr(E.mod(self.path), self.cls)


def pos(E, n):
    return E.real(n, lo=0)


PRIMS = {}


def prim(p):
    PRIMS[p.key] = p
    return p


def real(E, n, *a, **k):
    return E.real(n, *a, **k)


# --------------------------------------------------------------------------
# Closed forms of the posterior predictive, written from the textbook.

def student(E, x, S, h):
    """Student-t predictive of the normal / normal-gamma model."""
    N, S1, S2 = S
    rn, nun = h['r'] + N, h['nu'] + N
    mn = (h['r'] * h['m'] + S1) / rn
    sn = h['s'] + S2 + h['r'] * h['m'] * h['m'] - rn * mn * mn
    z = (x - mn) * (x - mn) * rn / (sn * (rn + 1.))
    return (E.lgamma((nun + 1.) / 2.) - E.lgamma(nun / 2.)
            - .5 * E.log(E.pi) - .5 * E.log(sn * (rn + 1.) / rn)
            - (nun + 1.) / 2. * E.log(1. + z))


def normal_pred(E, p, o, h, x):
    return student(E, x, sums(E, p, o), h)


def lognormal_pred(E, p, o, h, x):
    return student(E, E.log(x), sums(E, p, o), h) - E.log(x)


def exponential_pred(E, p, o, h, x):
    """Lomax."""
    N, S = sums(E, p, o)
    a, b = h['a'] + N, h['b'] + S
    return E.log(a) - E.log(b) - (a + 1) * E.log(1. + x / (b * 1.))


def poisson_pred(E, p, o, h, x):
    """Negative binomial."""
    N, S, _ = sums(E, p, o)
    a, b = h['a'] + S, h['b'] + N
    return (E.lgamma(a + x) - E.lgamma(a) - E.lgamma(x + 1)
            + a * E.log(b / (b + 1.)) + x * E.log(1. / (b + 1.)))


def geometric_pred(E, p, o, h, x):
    """Beta-geometric: B(a + 1, b + x) / B(a, b)."""
    N, S = sums(E, p, o)
    a, b = h['a'] + N, h['b'] + S
    return (E.lgamma(a + 1) + E.lgamma(b + x) - E.lgamma(a + b + x + 1)
            - E.lgamma(a) - E.lgamma(b) + E.lgamma(a + b))


def bernoulli_pred(E, p, o, h, x):
    N, S = sums(E, p, o)
    w = E.If(x == 1, S + h['alpha'], N - S + h['beta'])
    return E.log(w) - E.log(N + h['alpha'] + h['beta'])


def vonmises_pred(E, p, o, h, x):
    N, ss, sc = sums(E, p, o)

    def res(s, c):
        C = h['k'] * c + h['a'] * E.cos(h['b'])
        S = h['k'] * s + h['a'] * E.sin(h['b'])
        return E.sqrt(C * C + S * S)
    a0, a1 = res(ss, sc), res(ss + E.sin(x), sc + E.cos(x))
    E.assume(a0 > 0)
    E.assume(a1 > 0)
    return (E.log(E.bessel0(a1)) - E.log(E.bessel0(a0))
            - E.log(2 * E.pi) - E.log(E.bessel0(h['k'])))


def beta_pred(E, p, o, h, x):
    s, b = o.strength, o.balance
    a, b = s * b, s * (1. - b)
    return ((a - 1.) * E.log(x) + (b - 1.) * E.log(1. - x)
            + E.lgamma(a + b) - E.lgamma(a) - E.lgamma(b))


def trunc_pred(E, p, o, h, x):
    z = (x - o.mu) / (o.sigma * 1.)
    hi = E.normcdf((o.h - o.mu) / (o.sigma * 1.))
    lo = E.normcdf((o.l - o.mu) / (o.sigma * 1.))
    E.assume(hi - lo > 1e-9)
    return (-.5 * E.log(2 * E.pi) - E.log(o.sigma) - z * z / 2.
            - E.log(hi - lo))


def categorical_pred(E, p, o, h, x):
    n = E.fold(o.data, lambda k, v: E.If(v == x, 1, 0))
    N = E.length(o.data)
    return E.log(n + h['alpha']) - E.log(N + o.k * h['alpha'])


def crp_pred(E, p, o, h, x):
    n = E.fold(o.data, lambda k, v: E.If(v == x, 1, 0))
    N = E.length(o.data)
    return E.log(E.If(n > 0, n, h['alpha'])) - E.log(N + h['alpha'])


# --------------------------------------------------------------------------
# Laws of simulate.

def law_normal(E, p, o, h, draws, link=lambda E, v: v):
    N, S1, S2 = sums(E, p, o)
    rn, nun = h['r'] + N, h['nu'] + N
    mn = (h['r'] * h['m'] + S1) / rn
    sn = h['s'] + S2 + h['r'] * h['m'] * h['m'] - rn * mn * mn
    rho, mu, x = expect(E, draws, ['gamma', 'normal', 'normal'])
    E.ensure_eq('simulate: precision ~ Gamma(nu/2, rate s/2) (shape)',
                rho[1]['shape'], nun / 2.)
    E.ensure_eq('simulate: precision ~ Gamma(nu/2, rate s/2) (scale)',
                rho[1]['scale'], 2. / sn)
    E.ensure_eq('simulate: mean ~ Normal(m, precision r*rho) (loc)',
                mu[1]['loc'], mn)
    E.ensure_eq('simulate: mean ~ Normal(m, precision r*rho) (scale)',
                mu[1]['scale'] * mu[1]['scale'] * rho[2] * rn, 1.)
    E.ensure_eq('simulate: x ~ Normal(mean, precision rho) (loc)',
                x[1]['loc'], mu[2])
    E.ensure_eq('simulate: x ~ Normal(mean, precision rho) (scale)',
                x[1]['scale'] * x[1]['scale'] * rho[2], 1.)
    E.ensure('simulate: positive scales', E.And(
        mu[1]['scale'] > 0, x[1]['scale'] > 0))
    return link(E, x[2])


def law_exponential(E, p, o, h, draws):
    N, S = sums(E, p, o)
    mu, x = expect(E, draws, ['gamma', 'exponential'])
    E.ensure_eq('simulate: rate ~ Gamma(a + N, rate b + sum x) (shape)',
                mu[1]['shape'], h['a'] + N)
    E.ensure_eq('simulate: rate ~ Gamma(a + N, rate b + sum x) (scale)',
                mu[1]['scale'] * (h['b'] + S), 1.)
    E.ensure_eq('simulate: x ~ Exponential(rate)', x[1]['scale'] * mu[2], 1.)
    return x[2]


def law_poisson(E, p, o, h, draws):
    N, S, _ = sums(E, p, o)
    x, = expect(E, draws, ['negative_binomial'])
    b = h['b'] + N
    E.ensure_eq('simulate: x ~ NB(a + sum x, .) (n)', x[1]['n'], h['a'] + S)
    E.ensure_eq('simulate: x ~ NB(., (b + N)/(b + N + 1)) (p)',
                x[1]['p'], b / (b + 1.))
    return x[2]


def law_geometric(E, p, o, h, draws):
    N, S = sums(E, p, o)
    q, x = expect(E, draws, ['beta', 'geometric'])
    E.ensure_eq('simulate: p ~ Beta(a + N, b + sum x) (a)',
                q[1]['a'], h['a'] + N)
    E.ensure_eq('simulate: p ~ Beta(a + N, b + sum x) (b)',
                q[1]['b'], h['b'] + S)
    E.ensure_eq('simulate: x ~ Geometric(p)', x[1]['p'], q[2])
    return x[2] - 1


def law_bernoulli(E, p, o, h, draws):
    N, S = sums(E, p, o)
    x, = expect(E, draws, ['choice'])
    E.same_law('simulate', x, [0, 1], lambda v: E.log(
        S + h['alpha'] if v == 1 else N - S + h['beta']))
    return x[2]


def law_categorical(E, p, o, h, draws):
    if not E.symbolic and o.k == 1:
        return 0
    x, = expect(E, draws, ['choice'])
    fam = range(o.k) if not E.symbolic else E.indices(o.k)
    E.same_law('simulate', x, fam, lambda v: E.log(
        E.fold(o.data, lambda k, u: E.If(u == v, 1, 0)) + h['alpha']))
    return x[2]


def law_vonmises(E, p, o, h, draws):
    N, ss, sc = sums(E, p, o)
    mu, x = expect(E, draws, ['vonmises', 'vonmises'])
    C = h['k'] * sc + h['a'] * E.cos(h['b'])
    S = h['k'] * ss + h['a'] * E.sin(h['b'])
    R = E.sqrt(C * C + S * S)
    E.ensure_eq('simulate: mean ~ Vonmises(bn, an) (concentration)',
                mu[1]['kappa'], R)
    b = mu[1]['mu'] + E.pi
    if not E.symbolic:
        E.ensure_eq('simulate: mean ~ Vonmises(bn, an) (cos of mean)',
                    math.cos(b) * R, C, 1e-6)
        E.ensure_eq('simulate: mean ~ Vonmises(bn, an) (sin of mean)',
                    math.sin(b) * R, S, 1e-6)
    E.ensure_eq('simulate: x ~ Vonmises(mean, k) (mean)',
                x[1]['mu'], mu[2])
    E.ensure_eq('simulate: x ~ Vonmises(mean, k) (concentration)',
                x[1]['kappa'], h['k'])
    return x[2] + E.pi


def law_beta(E, p, o, h, draws):
    x, = expect(E, draws, ['beta'])
    E.ensure_eq('simulate: x ~ Beta(s b, s (1 - b)) (a)',
                x[1]['a'], o.strength * o.balance)
    E.ensure_eq('simulate: x ~ Beta(s b, s (1 - b)) (b)',
                x[1]['b'], o.strength * (1. - o.balance))
    return x[2]


def law_trunc(E, p, o, h, draws):
    E.ensure('simulate: at least one draw', len(draws) >= 1)
    for i, (n, prm, v) in enumerate(draws):
        E.ensure('simulate: rejection from a normal', n == 'normal')
        E.ensure_eq('simulate: proposal mean', prm['loc'], o.mu)
        E.ensure_eq('simulate: proposal scale', prm['scale'], o.sigma)
        inside = o.l <= v <= o.h
        E.ensure('simulate: accepts exactly the draws in [l, h]',
                 inside == (i == len(draws) - 1))
    return draws[-1][2]


def law_crp(E, p, o, h, draws):
    tabs = sorted(set(o.data.values()))
    if not tabs:
        return None
    x, = expect(E, draws, ['choice'])
    new = [t for t in x[1]['a'] if t not in tabs]
    E.ensure('simulate: exactly one fresh table is offered', len(new) == 1)
    n = dict((t, sum(1 for v in o.data.values() if v == t)) for t in tabs)
    w = dict((t, float(n.get(t, h['alpha']))) for t in tabs + new)
    tot = sum(w.values())
    E.ensure('simulate: every table is offered once',
             sorted(x[1]['a']) == sorted(tabs + new))
    E.ensure_eq('simulate: table probabilities', list(x[1]['p']),
                [w[t] / tot for t in x[1]['a']])
    return x[2]


def expect(E, draws, names):
    E.ensure('simulate: draws %s' % ', '.join(names),
             [d[0] for d in draws] == names, [d[0] for d in draws])
    return draws


# --------------------------------------------------------------------------

NORMAL_H = dict(
    hypers=lambda E: {'m': E.real('m'), 'r': pos(E, 'r'), 's': pos(E, 's'),
                      'nu': pos(E, 'nu')},
    hyper_positive=('r', 's', 'nu'))
AB = dict(hypers=lambda E: {'a': pos(E, 'a'), 'b': pos(E, 'b')},
          hyper_positive=('a', 'b'))


def not_count(E):
    x = E.real('x')
    E.assume(E.Or(x < 0, E.Not(E.is_int(x))))
    return x


prim(P('normal', 'Normal', value=lambda E, n='x': E.real(n),
       stats={'N': lambda E, x: 1, 'sum_x': lambda E, x: x,
              'sum_x_sq': lambda E, x: x * x},
       invalid=None, pred=normal_pred, law=law_normal, **NORMAL_H))
prim(P('lognormal', 'Lognormal', value=lambda E, n='x': E.exp(E.real(n)),
       stats={'N': lambda E, x: 1, 'sum_log_x': lambda E, x: E.log(x),
              'sum_log_x_sq': lambda E, x: E.log(x) * E.log(x)},
       invalid=lambda E: -E.real('x', lo=0, lo_open=False),
       pred=lognormal_pred,
       law=lambda E, p, o, h, d: law_normal(
           E, p, o, h, d, lambda E, v: E.exp(v)), **NORMAL_H))
prim(P('exponential', 'Exponential',
       value=lambda E, n='x': E.real(n, lo=0, lo_open=False),
       stats={'N': lambda E, x: 1, 'sum_x': lambda E, x: x},
       invalid=lambda E: -E.real('x', lo=0),
       pred=exponential_pred, law=law_exponential, **AB))
prim(P('poisson', 'Poisson', value=lambda E, n='x': E.int(n, lo=0),
       stats={'N': lambda E, x: 1, 'sum_x': lambda E, x: x,
              'sum_log_fact_x': lambda E, x: E.lgamma(x + 1)},
       invalid=not_count, discrete=True,
       pred=poisson_pred, law=law_poisson, **AB))
prim(P('geometric', 'Geometric', value=lambda E, n='x': E.int(n, lo=0),
       stats={'N': lambda E, x: 1, 'sum_x': lambda E, x: x},
       invalid=not_count, discrete=True,
       pred=geometric_pred, law=law_geometric, **AB))


def not_bit(E):
    x = E.real('x')
    E.assume(E.And(x != 0, x != 1))
    return x


prim(P('bernoulli', 'Bernoulli',
       hypers=lambda E: {'alpha': pos(E, 'alpha'), 'beta': pos(E, 'beta')},
       hyper_positive=('alpha', 'beta'),
       value=lambda E, n='x': E.int(n, lo=0, hi=2),
       stats={'N': lambda E, x: 1, 'x_sum': lambda E, x: x},
       invalid=not_bit, discrete=True,
       pred=bernoulli_pred, law=law_bernoulli))


def angle(E, n='x'):
    return E.real(n, lo=0, hi=2 * E.pi, lo_open=False, hi_open=False)


def not_angle(E):
    x = E.real('x')
    E.assume(E.Or(x < 0, x > 2 * E.pi))
    return x


prim(P('vonmises', 'Vonmises',
       hypers=lambda E: {'a': pos(E, 'a'), 'k': pos(E, 'k'),
                         'b': E.real('b', lo=0, hi=2 * E.pi)},
       hyper_positive=('a', 'k'),
       value=angle,
       stats={'N': lambda E, x: 1, 'sum_sin_x': lambda E, x: E.sin(x),
              'sum_cos_x': lambda E, x: E.cos(x)},
       invalid=not_angle, pred=vonmises_pred, law=law_vonmises))


def not_unit(E):
    return E.real('x', lo=1.001) if E.flag('above') else -E.real(
        'y', lo=.001)


prim(P('beta', 'Beta',
       hypers=lambda E: None, hyper_positive=(),
       params=lambda E: {'strength': pos(E, 'strength'),
                         'balance': E.real('balance', lo=0, hi=1)},
       value=lambda E, n='x': E.real(n, lo=.001, hi=.999),
       stats={'N': lambda E, x: 1, 'sum_log_x': lambda E, x: E.log(x),
              'sum_minus_log_x': lambda E, x: E.log(1. - x)},
       invalid=not_unit, pred=beta_pred, law=law_beta))


def trunc_args(E):
    l = E.real('l')
    return {'l': l, 'h': l + E.real('width', lo=0)}


def trunc_params(E, d):
    # (I) of the uncollapsed object: l <= mu <= h, sigma > 0.  (mu = 0 is
    # read as 'not given' by the constructor.)
    mu = trunc_value(E, 'mu', Interval(d))
    E.assume(mu != 0)
    return {'mu': mu, 'sigma': pos(E, 'sigma')}


class Interval(object):
    def __init__(self, d):
        self.l, self.h = d['l'], d['h']


def not_trunc(E, o):
    x = E.real('x')
    E.assume(E.Or(x < o.l, x > o.h))
    return x


def trunc_value(E, n='x', o=None):
    x = E.real(n)
    if E.symbolic:
        E.assume(E.And(x >= o.l, x <= o.h))
        return x
    f = E.r.choice([0., 1., E.r.uniform()], p=[.1, .1, .8])
    return o.l + f * (o.h - o.l) if f < 1. else o.h


prim(P('normal_trunc', 'NormalTrunc',
       hypers=lambda E: None, hyper_positive=(),
       distargs=trunc_args,
       params=trunc_params,
       value=trunc_value, needs_o=True,
       stats={'N': lambda E, x: 1, 'sum_x': lambda E, x: x,
              'sum_x_sq': lambda E, x: x * x},
       invalid=not_trunc, pred=trunc_pred, law=law_trunc))


def cat_value(E, n='x', o=None):
    return E.int(n, lo=0, hi=o.k)


def not_cat(E, o):
    x = E.real('x')
    E.assume(E.Or(x < 0, x >= o.k, E.Not(E.is_int(x))))
    return x


prim(P('categorical', 'Categorical',
       hypers=lambda E: {'alpha': pos(E, 'alpha')},
       hyper_positive=('alpha',),
       distargs=lambda E: {'k': E.int('k', lo=1)},
       value=cat_value, needs_o=True,
       stats={'N': lambda E, x: 1},
       invalid=not_cat, discrete=True,
       pred=categorical_pred, law=law_categorical))
prim(P('crp', 'Crp',
       hypers=lambda E: {'alpha': pos(E, 'alpha')},
       hyper_positive=('alpha',),
       value=lambda E, n='x': E.int(n, lo=0, hi=None if E.symbolic else 6),
       stats={'N': lambda E, x: 1},
       invalid=None, accepts_observed=True, discrete=True,
       pred=crp_pred, law=law_crp))


def value(E, p, o, n='x'):
    if getattr(p, 'needs_o', False):
        return p.value(E, n, o)
    return p.value(E, n)


def invalid(E, p, o):
    if getattr(p, 'needs_o', False):
        return p.invalid(E, o)
    return p.invalid(E)


def sums(E, p, o):
    return [E.fold(o.data, lambda k, x, f=f: f(E, x))
            for s, f in p.stats.items()]


NG = {'normal': ('sum_x', 'sum_x_sq', lambda E, x: x),
      'lognormal': ('sum_log_x', 'sum_log_x_sq', lambda E, x: E.log(x))}


def data_lemmas(E, p, o, h, x=None):
    """Facts about the sums of the held data (and of the data with x)."""
    if p.key in NG:
        a, b, f = NG[p.key]
        N, S1, S2 = sums(E, p, o)
        if x is not None:
            S1, S2, N = S1 + f(E, x), S2 + f(E, x) * f(E, x), N + 1
        E.lemma('L1 Cauchy-Schwarz: (sum x)^2 <= N * sum x^2',
                S1 * S1 <= N * S2)
        E.positive(
            'L2 normal-gamma posterior scale: '
            's + sum x^2 + r m^2 - (r m + sum x)^2 / (r + N) > 0',
            h['s'] + S2 + h['r'] * h['m'] * h['m']
            - (h['r'] * h['m'] + S1) * (h['r'] * h['m'] + S1)
            / (h['r'] + N))


def build(E, p, h=None):
    cls = p.get(E)
    h = p.hypers(E) if h is None else h
    d = p.distargs(E)
    o = cls([OUT], [], hypers=None if h is None else dict(h),
            params=p.params(E) if d is None or p.key != 'normal_trunc'
            else p.params(E, d), distargs=d, rng=E.rng())
    return o, h


def arbitrary(E, p, hypers=None, lo=0):
    """An object holding an arbitrary data set, satisfying (I)."""
    o, h = build(E, p, hypers)
    data = E.ordered_map('data', lambda k: value(E, p, o, 'v'), lo=lo) \
        if p.key == 'crp' else E.map(
            'data', lambda k: value(E, p, o, 'v'), lo=lo)
    o.data = data
    for s, f in p.stats.items():
        setattr(o, s, E.fold(data, lambda k, x: f(E, x)))
    if p.key == 'categorical':
        o.counts = E.array('counts', o.k, lambda j: E.fold(
            data, lambda k, x: E.If(x == j, 1, 0)))
        E.lemma('L3 the counts of values in range(k) sum to N',
                E.sum(o.counts) == E.length(data))
    if p.key == 'crp':
        o.counts = crp_counts(E, o.data)
    data_lemmas(E, p, o, h)
    if not E.symbolic:
        o.rng.draws[:] = []
    else:
        del o.rng.draws[:]
    return o, h


def crp_counts(E, data):
    """table -> number of customers, for the occupied tables."""
    if E.symbolic:
        return E.index(data)
    from collections import OrderedDict
    c = OrderedDict()
    for v in data.values():
        c[v] = c.get(v, 0) + 1
    return c


def check_inv(E, p, o, what):
    for s, f in sorted(p.stats.items()):
        E.ensure_eq('%s: statistic %s is the fold of the held data'
                    % (what, s), getattr(o, s),
                    E.fold(o.data, lambda k, x: f(E, x)))
    if p.key == 'categorical':
        j = E.int('j', lo=0, hi=o.k)
        E.ensure_eq('%s: counts[j] is the number of rows holding j' % what,
                    o.counts[j],
                    E.fold(o.data, lambda k, x: E.If(x == j, 1, 0)))
        E.ensure_eq('%s: one count per category' % what,
                    E.length(o.counts), o.k)
    if p.key == 'crp':
        j = E.int('j', lo=0, hi=None if E.symbolic else 7)
        n = E.fold(o.data, lambda k, x: E.If(x == j, 1, 0))
        if isinstance(o.counts, dict) and not o.counts:
            E.ensure_eq('%s: an unlisted table is empty' % what, n, 0)
        elif j in o.counts:
            E.ensure('%s: a listed table is occupied' % what, n >= 1)
            E.ensure_eq('%s: its count is its number of customers' % what,
                        o.counts[j], n)
        else:
            E.ensure_eq('%s: an unlisted table is empty' % what, n, 0)


def frame(E, p, o, h, what):
    if h is not None:
        g = o.get_hypers()
        for k in sorted(h):
            E.ensure_eq('%s: hyperparameter %s untouched' % (what, k),
                        g[k], h[k])


def snapshot(o):
    """Everything observable about the held data of a primitive."""
    import copy
    return copy.copy(o.data), dict(
        (k, copy.copy(v)) for k, v in o.get_suffstats().items())


def same_data(E, a, b, name):
    if E.symbolic:
        E.ensure_eq(name + ' (number of rows)', E.length(a), E.length(b))
        j = E.int('anyrow')
        E.ensure(name + ' (rows)', (j in a) == (j in b))
        if j in a and j in b:
            E.ensure_eq(name + ' (value)', a[j], b[j])
    else:
        E.ensure_eq(name, dict(a), dict(b))


def unchanged(E, p, o, before, what):
    data, stats = before
    same_data(E, o.data, data, what + ': data unchanged')
    check_inv(E, p, o, what)


ANY = (Exception,)


def add(p):
    T = p.path + ':' + p.cls
    sym = getattr(p, 'sym', True)

    @unit('C01', p.key + '/construct', [T + '.__init__'])
    def _(E):
        o, h = build(E, p)
        E.ensure('new object holds no data', len(o.data) == 0)
        for s in p.stats:
            E.ensure_eq('new object: statistic %s is zero' % s,
                        getattr(o, s), 0)
        check_inv(E, p, o, 'new object')
        if h is not None:
            frame(E, p, o, h, 'new object')

    @unit('C01', p.key + '/incorporate', [T + '.incorporate'])
    def _(E):
        o, h = arbitrary(E, p)
        rowid = E.int('rowid', lo=0)
        E.assume(rowid not in o.data)
        x = value(E, p, o)
        n0 = E.length(o.data)
        o.incorporate(rowid, {OUT: x})
        E.ensure('incorporate: the row is held', rowid in o.data)
        E.ensure_eq('incorporate: the row holds the value', o.data[rowid], x)
        E.ensure_eq('incorporate: one more row', E.length(o.data), n0 + 1)
        check_inv(E, p, o, 'incorporate')
        frame(E, p, o, h, 'incorporate')

    @unit('C01', p.key + '/unincorporate', [T + '.unincorporate'])
    def _(E):
        o, h = arbitrary(E, p, lo=1)
        rowid = E.pick('rowid', o.data)
        n0 = E.length(o.data)
        o.unincorporate(rowid)
        E.ensure('unincorporate: the row is gone', rowid not in o.data)
        E.ensure_eq('unincorporate: one row less', E.length(o.data), n0 - 1)
        check_inv(E, p, o, 'unincorporate')
        frame(E, p, o, h, 'unincorporate')

    @unit('C01', p.key + '/inverse', [T + '.incorporate',
                                      T + '.unincorporate'])
    def _(E):
        o, h = arbitrary(E, p)
        rowid = E.int('rowid', lo=0)
        E.assume(rowid not in o.data)
        x = value(E, p, o)
        before = dict(o.data) if not E.symbolic else o.data.clone()
        o.incorporate(rowid, {OUT: x})
        o.unincorporate(rowid)
        same_data(E, o.data, before, 'incorporate then unincorporate')
        check_inv(E, p, o, 'incorporate then unincorporate')

    @bounded('C01', p.key + '/history', [T + '.incorporate',
                                         T + '.unincorporate'],
             trials=15, bound='12 random operations from the empty object')
    def _(E):
        o, h = build(E, p)
        held = {}
        for _ in range(12):
            if held and E.r.randint(3) == 0:
                r = list(held)[E.r.randint(len(held))]
                o.unincorporate(r)
                del held[r]
            else:
                r = int(E.r.randint(20))
                x = value(E, p, o)
                if r in held:
                    E.raises(ANY, lambda: o.incorporate(r, {OUT: x}))
                else:
                    o.incorporate(r, {OUT: x})
                    held[r] = x
            E.ensure_eq('history: the held data', dict(o.data), held)
            check_inv(E, p, o, 'history')
        st = o.get_suffstats()
        for s, f in p.stats.items():
            E.ensure_eq('history: reported statistic %s' % s, st[s],
                        sum(f(E, x) for x in held.values()))

    @unit('C02', p.key + '/chain', [T + '.logpdf', T + '.logpdf_score',
                                    T + '.incorporate'])
    def _(E):
        o, h = arbitrary(E, p)
        rowid = E.int('rowid', lo=0)
        E.assume(rowid not in o.data)
        x = value(E, p, o)
        data_lemmas(E, p, o, h, x)
        if p.key == 'vonmises':
            vonmises_pred(E, p, o, h, x)
        if p.key == 'normal_trunc':
            trunc_pred(E, p, o, h, x)
        s0 = o.logpdf_score()
        lp = o.logpdf(rowid, {OUT: x})
        o.incorporate(rowid, {OUT: x})
        s1 = o.logpdf_score()
        E.ensure_eq('score gained by a row is its predictive logpdf',
                    s1 - s0, lp)

    @unit('C02', p.key + '/empty', [T + '.logpdf_score'])
    def _(E):
        o, h = build(E, p)
        if p.key in ('beta', 'normal_trunc'):
            # uncollapsed: the score of no data is the parameter prior
            prior = o.logpdf_score()
            if p.key == 'beta':
                want = (-E.log(o.mu) - o.strength / o.mu)
            else:
                want = (E.log(o.sigma) - o.sigma / 2. - 2 * E.log(2)
                        - E.log(o.h - o.l))
            E.ensure_eq('score of no data is the prior of the parameters',
                        prior, want)
        else:
            E.ensure_eq('score of no data is 0', o.logpdf_score(), 0.)

    @bounded('C02', p.key + '/order', [T + '.logpdf_score'], trials=15,
             bound='up to 6 rows, 2 orders')
    def _(E):
        o, h = build(E, p)
        rows = [(i, value(E, p, o)) for i in range(E.r.randint(7))]
        tot = o.logpdf_score()
        for r, x in rows:
            lp = o.logpdf(r, {OUT: x})
            tot = tot + lp
            o.incorporate(r, {OUT: x})
        if not all(math.isfinite(v) for v in [tot]):
            return
        E.ensure_eq('score is the sum of sequential predictives',
                    o.logpdf_score(), tot, 1e-5)
        s = o.logpdf_score()
        for i in E.r.permutation(len(rows)):
            o.unincorporate(rows[i][0])
        for i in E.r.permutation(len(rows)):
            o.incorporate(rows[i][0], {OUT: rows[i][1]})
        E.ensure_eq('score does not depend on the order of arrival',
                    o.logpdf_score(), s, 1e-5)

    # ---- C03: support and validation
    if p.invalid is not None:
        @unit('C03', p.key + '/reject', [T + '.incorporate'])
        def _(E):
            o, h = arbitrary(E, p)
            rowid = E.int('rowid', lo=0)
            E.assume(rowid not in o.data)
            x = invalid(E, p, o)
            before = snapshot(o)
            E.raises((ValueError,), lambda: o.incorporate(rowid, {OUT: x}),
                     'a value outside the support is rejected')
            unchanged(E, p, o, before, 'rejected value')

        @unit('C03', p.key + '/outside', [T + '.logpdf'])
        def _(E):
            o, h = arbitrary(E, p)
            rowid = E.int('rowid', lo=0)
            E.assume(rowid not in o.data)
            x = invalid(E, p, o)
            lp = o.logpdf(rowid, {OUT: x})
            E.ensure('a value outside the support has log density -inf',
                     E.is_neginf(lp), lp)

    @unit('C03', p.key + '/finite', [T + '.logpdf'])
    def _(E):
        o, h = arbitrary(E, p)
        rowid = E.int('rowid', lo=0)
        E.assume(rowid not in o.data)
        x = value(E, p, o)
        data_lemmas(E, p, o, h, x)
        if p.key == 'vonmises':
            vonmises_pred(E, p, o, h, x)
        if p.key == 'normal_trunc':
            trunc_pred(E, p, o, h, x)
        lp = o.logpdf(rowid, {OUT: x})
        E.ensure('a value in the support has finite log density',
                 E.isfinite(lp), lp)

    @unit('C03', p.key + '/duplicate', [T + '.incorporate'])
    def _(E):
        o, h = arbitrary(E, p, lo=1)
        rowid = E.pick('rowid', o.data)
        x = value(E, p, o)
        before = snapshot(o)
        E.raises(ANY, lambda: o.incorporate(rowid, {OUT: x}),
                 'a row that is already held is rejected')
        unchanged(E, p, o, before, 'duplicate row')

    @unit('C03', p.key + '/missing', [T + '.unincorporate'])
    def _(E):
        o, h = arbitrary(E, p)
        rowid = E.int('rowid', lo=0)
        E.assume(rowid not in o.data)
        before = snapshot(o)
        E.raises(ANY, lambda: o.unincorporate(rowid),
                 'removing a row that is not held is rejected')
        unchanged(E, p, o, before, 'unknown row')

    @unit('C03', p.key + '/malformed', [T + '.incorporate', T + '.logpdf',
                                        T + '.simulate'])
    def _(E):
        o, h = arbitrary(E, p)
        rowid = E.int('rowid', lo=0)
        E.assume(rowid not in o.data)
        x = value(E, p, o)
        before = snapshot(o)
        E.raises(ANY, lambda: o.incorporate(rowid, {OUT + 1: x}),
                 'a value for another variable is rejected')
        E.raises(ANY, lambda: o.incorporate(rowid, {}),
                 'an empty observation is rejected')
        E.raises(ANY, lambda: o.incorporate(rowid, {OUT: x}, {1: 2}),
                 'unexpected inputs are rejected')
        E.raises(ANY, lambda: o.logpdf(rowid, {OUT + 1: x}),
                 'a query on another variable is rejected')
        E.raises(ANY, lambda: o.logpdf(rowid, {OUT: x}, {1: 2}),
                 'a query with constraints is rejected')
        E.raises(ANY, lambda: o.simulate(rowid, [OUT + 1]),
                 'simulating another variable is rejected')
        unchanged(E, p, o, before, 'malformed call')

    # ---- C04: the predictive law
    @unit('C04', p.key + '/predictive', [T + '.logpdf'])
    def _(E):
        o, h = arbitrary(E, p)
        rowid = E.int('rowid', lo=0)
        E.assume(rowid not in o.data)
        x = value(E, p, o)
        data_lemmas(E, p, o, h, x)
        want = p.pred(E, p, o, h, x)
        lp = o.logpdf(rowid, {OUT: x})
        E.ensure_eq('logpdf is the closed-form posterior predictive',
                    lp, want)

    @unit('C04', p.key + '/simulate', [T + '.simulate'],
          prove=p.key not in ('normal_trunc', 'crp'),
          bounded='random states; the recorded draw is compared with the '
          'law' if p.key in ('normal_trunc', 'crp') else None)
    def _(E):
        draw_contracts(E)
        o, h = arbitrary(E, p)
        rowid = E.int('rowid', lo=0)
        E.assume(rowid not in o.data)
        if p.key == 'vonmises':
            vonmises_pred(E, p, o, h, 1.)
        if p.key == 'normal_trunc':
            # the rejection sampler gives up after 1000 proposals
            hi = E.normcdf((o.h - o.mu) / (o.sigma * 1.))
            lo = E.normcdf((o.l - o.mu) / (o.sigma * 1.))
            E.assume(hi - lo > .05)
        x = o.simulate(rowid, [OUT])
        E.ensure('simulate returns the queried variable', list(x) == [OUT])
        want = p.law(E, p, o, h, o.rng.draws)
        if want is not None:
            E.ensure_eq('simulate returns the draw', x[OUT], want)
        else:
            E.ensure_eq('simulate: the first table', x[OUT], 0)
        check_inv(E, p, o, 'simulate')

    @unit('C04', p.key + '/observed', [T + '.simulate'])
    def _(E):
        o, h = arbitrary(E, p, lo=1)
        rowid = E.pick('rowid', o.data)
        x = o.simulate(rowid, [OUT])
        E.ensure_eq('simulating a held row returns its value',
                    x[OUT], o.data[rowid])
        E.ensure('simulating a held row draws nothing',
                 len(o.rng.draws) == 0)
        n = E.choice('n', [1, 3])
        xs = o.simulate(rowid, [OUT], N=n)
        E.ensure('N samples are a list of N', len(xs) == n)
        for s in xs:
            E.ensure_eq('each sample of a held row is its value',
                        s[OUT], o.data[rowid])

    @bounded('C04', p.key + '/many', [T + '.simulate'], trials=8,
             bound='N up to 4')
    def _(E):
        o, h = arbitrary(E, p)
        if p.key == 'normal_trunc':
            hi = E.normcdf((o.h - o.mu) / (o.sigma * 1.))
            lo = E.normcdf((o.l - o.mu) / (o.sigma * 1.))
            E.assume(hi - lo > .05)
        n = int(E.r.randint(0, 5))
        xs = o.simulate(100, [OUT], None, None, n)
        E.ensure('N samples are a list of N samples', isinstance(xs, list)
                 and len(xs) == n and all(list(s) == [OUT] for s in xs))
        for s in xs:
            if p.key == 'beta' and s[OUT] in (0., 1.):
                continue    # rounding of a draw next to the boundary
            if p.key == 'lognormal' and s[OUT] in (0., math.inf):
                continue    # the exponential of the draw is no number
            lp = o.logpdf(100, {OUT: s[OUT]})
            E.ensure('a sample lies in the support', lp > -math.inf,
                     (s, lp))

    if p.discrete:
        @bounded('C04', p.key + '/normalized', [T + '.logpdf'], trials=10,
                 bound='supports truncated at 4000')
        def _(E):
            o, h = arbitrary(E, p)
            if p.key == 'crp':
                ks = sorted(set(o.data.values()))
                ks.append(max(ks) + 1 if ks else 0)
            elif p.key == 'categorical':
                ks = range(o.k)
            elif p.key == 'bernoulli':
                ks = [0, 1]
            else:
                ks = range(4000)
            tot = sum(math.exp(o.logpdf(100, {OUT: k})) for k in ks)
            if p.key in ('poisson', 'geometric'):
                E.ensure('probabilities sum to at most 1', tot < 1 + 1e-9,
                         tot)
            else:
                E.ensure_eq('probabilities sum to 1', tot, 1.)
    else:
        @bounded('C04', p.key + '/normalized', [T + '.logpdf'], trials=6,
                 bound='numerical quadrature')
        def _(E):
            import warnings
            import numpy as np
            from scipy.integrate import quad
            o, h = arbitrary(E, p)
            f = lambda x: math.exp(min(o.logpdf(100, {OUT: x}), 50.))
            if p.key in ('normal', 'lognormal', 'exponential'):
                # heavy tails: only bound the mass of an interval by 1
                lo, hi = {'normal': (-60., 60.), 'lognormal': (1e-6, 60.),
                          'exponential': (0., 60.)}[p.key]
            elif p.key == 'vonmises':
                lo, hi = 0., 2 * math.pi
            elif p.key == 'beta':
                lo, hi = .02, .98
            else:
                lo, hi = o.l, o.h
            xs = np.linspace(lo, hi, 6001)
            mid = (xs[1:] + xs[:-1]) / 2
            ys = np.array([f(x) for x in mid])
            tot = float(np.sum(ys) * (xs[1] - xs[0]))
            if p.key == 'vonmises':
                E.ensure_eq('density integrates to 1', tot, 1., 1e-3)
            elif p.key == 'normal_trunc':
                if ys.max() * (xs[1] - xs[0]) < .02:
                    E.ensure_eq('density integrates to 1', tot, 1., 1e-2)
            elif ys.max() * (xs[1] - xs[0]) < .02:
                E.ensure('density integrates to at most 1', tot < 1.02, tot)


for _p in list(PRIMS.values()):
    add(_p)
