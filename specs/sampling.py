"""C26: the Markov chain and rejection samplers of cgpm.utils.sampling.

The target is an arbitrary function; the loops are cut by invariants, so any
number of steps is covered."""
import math

import numpy as np
import scipy.stats as st

from vf.spec import unit, bounded

S = 'cgpm.utils.sampling'
INF = float('inf')


class Target(object):
    """An arbitrary log density (up to a constant)."""

    def __init__(self, E):
        self.E = E
        if E.symbolic:
            f = E.func('T')
            self.f = lambda x: f(x + 0.)
        else:
            a, b, c, d = [float(v) for v in E.r.normal(size=4)]
            self.f = lambda x: -a * a * (x - b) ** 2 / 2 + c * math.sin(
                3 * x + d)
            E.note('target', (a, b, c, d))

    def __call__(self, x):
        return self.f(x)


def domain(E, kind):
    """A support and a point of it."""
    if kind == 'unit interval':
        return (0, 1), E.real('x', 0, 1)
    if kind == 'half line':
        return (0., INF), E.real('x', 0)
    if kind == 'line':
        return (-INF, INF), E.real('x')
    if kind == 'shifted half line':
        l = E.real('l', 0)
        return (l, INF), l + E.real('x', 0)
    x = E.real('x')
    l, h = x - E.real('l', 0), x + E.real('h', 0)
    E.assume(E.Not(E.eq(l, 0)))
    return (l, h), x


KINDS = ['unit interval', 'half line', 'shifted half line', 'interval',
         'line']


def inside(E, D, x):
    out = []
    if not (isinstance(D[0], float) and D[0] == -INF):
        out.append(x > D[0])
    if not (isinstance(D[1], float) and D[1] == INF):
        out.append(x < D[1])
    return E.And(True, *out)


def reflection(E, kind, D, z):
    """The proposal that the normal draw z leads to."""
    if kind in ('line', 'interval'):
        return z
    if kind != 'unit interval':
        return E.If(z > D[0], z, 2 * D[0] - z)
    y = abs(z) % 2
    return E.If(y > 1, 2 - y, y)


class Chain(object):
    """The source of randomness, and the state after each step."""

    def __init__(self, E, kind, D, T, x):
        self.E, self.kind, self.D, self.T = E, kind, D, T
        self.log, self.scales, self.last = [], [], {}
        self.L = None
        self.X = E.func('X') if E.symbolic else None
        self.x0, self.states = x, [x]

    def now(self):
        return self.states[-1] if not self.E.symbolic else self.at(
            self.L.count())

    def at(self, m):
        if isinstance(m, int) and m == 0:
            return self.x0
        d = m - self.L.count()
        return self.after() if self.log and self.E.truth(d == 1) else \
            self.X(m)

    def after(self):
        E, x, y, u = self.E, self.now(), self.last['y'], self.last['u']
        corr = 0
        if self.kind in ('interval',):
            s, D = self.scales[-1], self.D

            def mass(v):
                return E.normcdf((D[1] - v) / s) - E.normcdf((D[0] - v) / s)
            corr = E.log(mass(x)) - E.log(mass(y))
        return E.If(E.log(u) < self.T(y) - self.T(x) + corr, y, x)

    def normal(self, loc=0., scale=1., size=None):
        E = self.E
        w = E.real('w')
        z = loc + scale * w
        x = self.now()
        # the same draw, whichever way it was asked for
        E.ensure('the proposal is a step from the state', E.Or(
            E.eq(loc, x), E.eq(loc, 0), E.eq(loc, x - self.D[0])))
        self.scales.append(scale)
        y = reflection(E, self.kind, self.D, x + scale * w)
        if self.kind == 'interval':
            # (at most one draw is rejected in the symbolic run)
            if E.symbolic and 'outside' in self.log:
                E.assume(inside(E, self.D, y))
            elif not E.truth(inside(E, self.D, y)):
                self.log.append('outside')
                return z
        else:
            E.assume(inside(E, self.D, y))
        self.last['y'] = y
        self.log.append('normal')
        return z

    def rand(self):
        u = self.last['u'] = self.E.real('u', 0, 1)
        self.log.append('rand')
        if not self.E.symbolic:
            self.states.append(self.after())
        return u


def steps(kind, tuned):
    @unit('C26', 'mh_sample/%s%s' % (kind, '/tuning' if tuned else ''),
          [S + ':mh_sample'], trials=200)
    def _(E):
        """Each step is a Metropolis-Hastings step of the target, for a
        reflected or truncated normal proposal; a sample is the state after
        burn + 1 steps."""
        D, x = domain(E, kind)
        T = Target(E)
        s = E.real('std', 0)
        burn = E.size('burn', 0, 60 if tuned else 16)
        if not tuned:
            E.assume(burn < 17)
        R = Chain(E, kind, D, T, x)

        def a_round(m):
            return [v for v in R.log if v == 'outside'] + ['normal', 'rand']

        R.L = E.loops(R.log, [dict(
            round_of=a_round, values=[R.at, lambda m: T(R.at(m))],
            inv=lambda m: m <= burn)])
        got = E.mod(S).mh_sample(x, T, s, D, burn=burn, rng=R)
        rest = R.L.done()
        if E.symbolic:
            m = R.L.count()
            E.ensure('one more step', rest == a_round(m))
            E.ensure_eq('the number of steps', m, burn)
            E.ensure_eq('the sample', got, R.after())
        else:
            E.ensure('the number of steps', R.log.count('rand') == burn + 1)
            E.ensure_eq('the sample', got, R.states[-1], tol=1e-9)
        if not tuned:
            E.ensure_eq('the step size', R.scales[-1], s)


for _k in KINDS:
    for _t in (False, True):
        if not (_t and _k == 'shifted half line'):
            steps(_k, _t)


# --------------------------------------------------------------------------
# Slice sampling.

def bounds(E, kind, x):
    if kind == 'line':
        return -INF, INF
    if kind == 'half line':
        return x - E.real('l', 0), INF
    return x - E.real('l', 0), x + E.real('h', 0)


def interval(kind):
    @unit('C26', 'slice interval/' + kind, [S + ':_find_slice_interval'],
          trials=200)
    def _(E):
        """The slice is searched on the grid of step w that has x at the
        fraction r of a step: each end is the first grid point whose density
        is not above the height, or the end of the support."""
        x, w = E.real('x'), E.real('w', 0)
        r = E.real('r', 0, 1)
        D = bounds(E, kind, x)
        T = Target(E)
        u = T(x) - E.real('u', 0)
        left = not E.truth(x - r * w < D[0])
        right = not E.truth(x + (1 - r) * w > D[1])
        log = []
        grid = [lambda m: x - r * w - m * w, lambda m: x + (1 - r) * w + m * w]
        sides = [i for i, s in enumerate((left, right)) if s]
        seen = {}

        def rule(i):
            def before():
                # (what the search of the other side saw last)
                seen[i] = list(log)
                return list(log)

            def a_round(m):
                E.ensure_eq('a point of the grid', log[-1][1], grid[i](m))
                return [('above', log[-1][1])]
            return dict(round_of=a_round, before=before, values=[grid[i]],
                        inv=lambda m: grid[i](m) >= D[0] if i == 0
                        else grid[i](m) <= D[1])
        L = E.loops(log, [rule(i) for i in sides])

        def f(y):
            log.append(('above' if E.truth(T(y) > u) else 'below', y))
            return T(y)
        got = E.mod(S)._find_slice_interval(f, r, x, u, D, w=w)
        E.ensure('an interval around x', E.And(got[0] <= x, x <= got[1]))
        if not E.symbolic:
            for i in (0, 1):
                m, s = 0, D[i]
                if i in sides:
                    while (D[0] <= grid[i](m) <= D[1] and
                           T(grid[i](m)) > u):
                        m += 1
                    s = min(max(grid[i](m), D[0]), D[1])
                E.ensure_eq('the end', got[i], s, tol=1e-9)
            return
        ends = [seen.get(j) for j in sides[1:]] + [L.done()]
        for i in (0, 1):
            if i not in sides:
                E.ensure_eq('the end of the support', got[i], D[i])
        for n, i in enumerate(sides):
            m, last = L.count(n), ends[n]
            E.ensure('one more point', len(last) == 1)
            E.ensure_eq('it is the next one', last[0][1], grid[i](m))
            if last[0][0] == 'below':
                E.ensure_eq('the end is the first point below', got[i],
                            grid[i](m))
            else:
                E.ensure_eq('the search ends with the support', got[i], D[i])
                E.ensure('the next point is outside',
                         grid[0](m + 1) < D[0] if i == 0
                         else grid[1](m + 1) > D[1])


for _k in ('line', 'half line', 'interval'):
    interval(_k)


@unit('C26', 'slice_sample', [S + ':slice_sample'], trials=200)
def _(E):
    """A sample is the first uniform draw whose density is above the height,
    when the interval shrinks to each rejected draw on its side of x."""
    x, w = E.real('x'), E.real('w', 0)
    D = (E.real('l'), E.real('h'))
    T = Target(E)
    log, state, drawn = [], {}, []

    def at(i):
        f = E.func('AB'[i]) if E.symbolic else None

        def g(m):
            if isinstance(m, int) and m == 0:
                return state['ends'][i]
            if drawn and E.truth(m - L.count(1) == 1):
                y = drawn[-1]
                return E.If(y > x, f(m - 1) if i == 0 else y,
                            y if i == 0 else f(m - 1))
            return f(m)
        return g
    ends = [at(0), at(1)]

    class R(object):
        def rand(self):
            v = E.real('rand', 0, 1)
            log.append(('rand', v))
            return v

        def uniform(self, low=0., high=1., size=None):
            if not E.symbolic:
                a, b = state['now']
            else:
                a, b = now(0), now(1)
            E.ensure_eq('the low end', low, a)
            E.ensure_eq('the high end', high, b)
            t = E.real('t', 0, 1)
            y = low + (high - low) * t
            drawn.append(y)
            above = E.truth(T(y) > state['u'])
            if not E.symbolic and not above:
                state['now'] = (a, y) if y > x else (y, b)
            log.append('accept' if above else 'reject')
            return y

    def find(f, r, x0, u, D0, w=1.):
        E.ensure_eq('the state', x0, x)
        E.ensure('the support', D0 is D)
        E.ensure_eq('the step', w, state['w'])
        rs = [v[1] for v in log]
        E.ensure('two draws', len(rs) == 2)
        E.ensure('the height and the offset have their own draws', E.Or(
            E.And(E.eq(u, E.log(rs[0]) + T(x)), E.eq(r, rs[1])),
            E.And(E.eq(u, E.log(rs[1]) + T(x)), E.eq(r, rs[0]))))
        y = E.real('y')
        E.ensure_eq('the target', f(y), T(y))
        del log[:]
        a, b = x - E.real('a', 0), x + E.real('b', 0)
        state.update(ends=(a, b), now=(a, b), u=u)
        return a, b
    state['w'] = w
    E.patch(S + ':_find_slice_interval', find)

    def now(i):
        m = L.count(1)
        return ends[i](m)
    L = E.loops(log, [None, dict(
        round_of=lambda m: ['reject'], values=ends)])
    got = E.mod(S).slice_sample(lambda: x, T, D, w=w, rng=R())
    E.ensure_eq('the sample is the last draw', got, drawn[-1])
    rest = L.done()
    if E.symbolic:
        E.ensure('and the only accepted one', rest == ['accept'])
    else:
        E.ensure('and the only accepted one', rest == ['reject'] * (
            len(rest) - 1) + ['accept'])


@unit('C26', 'rejection_sample', [S + ':rejection_sample'], trials=200)
def _(E):
    """The first draw of the proposal whose scaled uniform is below the
    target."""
    P, Q = Target(E), Target(E)
    log, last = [], {}

    class R(object):
        def rand(self):
            last['u'] = E.real('u', 0, 1)
            log.append('rand')
            return last['u']

    def draw():
        last['x'] = E.real('x')
        log.append('draw')
        return last['x']

    # (densities are positive, and the proposal contains the target)
    def q(x):
        return E.exp(Q(x)) + E.exp(P(x))

    def p(x):
        return E.exp(P(x))

    def accepted():
        return E.truth(last['u'] * q(last['x']) < p(last['x']))

    def a_round(m):
        E.ensure('a rejected draw', not accepted())
        return ['draw', 'rand']
    L = E.loops(log, [dict(round_of=a_round)])
    got = E.mod(S).rejection_sample(p, q, draw, rng=R())
    E.ensure_eq('the sample is the last draw', got, last['x'])
    E.ensure('it is accepted', accepted())
    rest = L.done()
    E.ensure('one uniform for each draw', sorted(rest) == sorted(
        ['draw', 'rand'] * (len(rest) // 2)))
    if E.symbolic:
        E.ensure('one more draw', len(rest) == 2)


# --------------------------------------------------------------------------
# Several samples, and the law of the samples on real draws.

class Scripted(object):
    """Uniforms of one half; the normal and uniform draws count the moves."""

    def __init__(self):
        self.n = 0

    def rand(self):
        return .5

    def normal(self, loc=0., scale=1., size=None):
        self.n += 1
        return loc + 1. if loc else 1.

    def uniform(self, low=0., high=1., size=None):
        self.n += 1
        return float(self.n)


@bounded('C26', 'several samples', [S + ':mh_sample', S + ':slice_sample',
                                    S + ':rejection_sample'], trials=200,
         bound='up to 6 samples, burn and lag up to 12')
def _(E):
    """As many samples as asked for, each the lag after the other, none
    before the burn-in; one sample is a number, several are a list."""
    r = E.r
    N, burn, lag = (int(r.randint(1, 7)), int(r.randint(0, 13)),
                    int(r.randint(1, 13)))
    E.note('how', (N, burn, lag))
    m = E.mod(S)
    if r.randint(2):
        D = [(0., INF), (-INF, INF)][r.randint(2)]
        got = m.mh_sample(1., lambda x: 0., 1., D, N, burn, lag, Scripted())
        got = np.array(got) - 1
    else:
        got = m.slice_sample(lambda: 1., lambda x: 0., (-50., 1e4), N, burn,
                             lag, w=1e3, rng=Scripted())
        got = np.array(got)
    E.ensure('a number or a list', np.shape(got) == (
        (N,) if N > 1 else ()))
    got = [int(v) for v in np.ravel(got)]
    E.ensure('after the burn-in', got[0] >= burn, got)
    E.ensure('not much later', got[0] <= max(burn, 1) + lag, got)
    E.ensure('the lag apart', all(np.diff(got) == lag), got)
    xs = [float(v) for v in r.uniform(size=400)]
    if r.randint(2):        # a law with atoms
        xs = [math.ceil(4 * v) / 4. for v in xs]
    us = [float(v) for v in r.uniform(size=400)]
    want = [x for x, u in zip(xs, us) if u < x]
    xs, us = iter(xs), iter(us)

    class U(object):
        def rand(self):
            return next(us)
    got = m.rejection_sample(lambda x: x, lambda x: 1., lambda: next(xs), N,
                             rng=U())
    E.ensure('the accepted draws', list(np.ravel(got)) == want[:N])


def fits(x, cdf, cells=12):
    """A chi-square test at level 1e-9."""
    n = np.bincount(np.minimum((cdf(np.array(x)) * cells).astype(int),
                               cells - 1), minlength=cells)
    e = len(x) / float(cells)
    return ((n - e) ** 2 / e).sum() < st.chi2.ppf(1 - 1e-9, cells - 1)


LAWS = [('beta', (0, 1), st.beta(2.5, .8)),
        ('uniform', (0, 1), st.uniform()),
        ('gamma', (0., INF), st.gamma(1.3)),
        ('exponential', (2., INF), st.expon(2.)),
        ('truncated normal', (-.5, 1.), st.truncnorm(-.5, 1.)),
        ('truncated exponential', (1., 2.), st.truncexpon(1., loc=1.)),
        ('normal', (-INF, INF), st.norm(1., 2.))]


@bounded('C26', 'invariance', [S + ':mh_sample', S + ':slice_sample',
                               S + ':rejection_sample'], trials=7,
         bound='7 laws, 4000 chains each, chi-square at level 1e-9')
def _(E):
    """A chain that starts from the target stays in it; rejection sampling
    draws from it."""
    name, D, law = LAWS[E.trial % len(LAWS)]
    g = np.random.RandomState(E.r.randint(2 ** 31))
    m = E.mod(S)
    start = [float(v) for v in law.rvs(size=4000, random_state=g)]
    std = float(g.uniform(.4, 1.5))
    E.note('case', (name, std))
    f = law.logpdf
    if name in ('beta', 'gamma', 'normal', 'exponential', 'uniform'):
        f = {'beta': lambda x: 1.5 * math.log(x) - .2 * math.log(1 - x),
             'gamma': lambda x: .3 * math.log(x) - x,
             'exponential': lambda x: -x, 'uniform': lambda x: 0.,
             'normal': lambda x: -(x - 1.) ** 2 / 8}[name]
    elif name == 'truncated normal':
        f = lambda x: -x * x / 2
    else:
        f = lambda x: 1. - x
    E.ensure('mh_sample', fits([m.mh_sample(
        x, f, std, D, burn=3, rng=g) for x in start], law.cdf))

    def safe(x):
        return f(x) if D[0] < x < D[1] else -INF
    E.ensure('slice_sample', fits([m.slice_sample(
        lambda: x, safe, D, w=std, rng=g) for x in start], law.cdf))
    if D[1] - D[0] < 2:
        top = max(law.pdf(np.linspace(D[0] + .001, D[1] - .001, 500))) * 1.1
        got = m.rejection_sample(
            lambda x: min(law.pdf(x), top), lambda x: top,
            lambda: g.uniform(D[0], D[1]), N=3000, rng=g)
        if name != 'beta':
            E.ensure('rejection_sample', fits(got, law.cdf))


@bounded('C26', 'no generator', [S + ':mh_sample', S + ':slice_sample',
                                 S + ':rejection_sample'], trials=20,
         bound='one law on (0, 1)')
def _(E):
    """Called without a generator, a sampler makes its own."""
    m = E.mod(S)
    x = float(E.r.uniform(.1, .9))
    f = lambda x: math.log(x) if 0 < x < 1 else -INF
    for name, got in [
            ('mh_sample', lambda: m.mh_sample(x, f, .3, (0, 1), burn=4)),
            ('slice_sample', lambda: m.slice_sample(
                lambda: x, f, (0, 1), burn=3)),
            ('rejection_sample', lambda: m.rejection_sample(
                lambda x: x, lambda x: 1., lambda: x))]:
        try:
            v = float(np.ravel(got())[0])
        except Exception as ex:
            v = repr(ex)
        E.ensure('%s: a value of the support' % name,
                 isinstance(v, float) and 0 < v < 1)
