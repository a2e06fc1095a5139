"""C27: the built-in example components sample the law that they score."""
import math

import numpy as np
import scipy.stats as st

from vf.spec import unit, bounded, Stub

D, U = 'cgpm.dummy.', 'cgpm.uncorrelated.'
PW = D + 'piecewise:PieceWise'
TW = D + 'twoway:TwoWay'
FW = D + 'fourway:FourWay'
TN = D + 'trollnormal:TrollNormal'
BB = D + 'barebones:BareBonesCGpm'
DXY = U + 'directed:DirectedXyGpm'
UXY = U + 'undirected:UnDirectedXyGpm'
DOTS, LIN, XC = U + 'dots:Dots', U + 'linear:Linear', U + 'xcross:XCross'
RING, UX = U + 'ring:Ring', U + 'uniformx:UniformX'
PY, SY, DY = U + 'parabola:ParabolaY', U + 'sin:SinY', U + 'diamond:DiamondY'
PARA, SIN, DIA = U + 'parabola:Parabola', U + 'sin:Sin', U + 'diamond:Diamond'
INF = float('inf')


def normal(E, x, mu, s):
    """The log density of the normal law."""
    z = (x - mu) / s
    return -E.log(2 * E.pi) / 2. - E.log(s) - z * z / 2.


def is_normal(E, x, draw, mu, s):
    """x is the draw, moved and scaled to the mean mu and the deviation s."""
    kind, p, v = draw
    E.ensure('a normal draw', kind == 'normal', kind)
    E.ensure('a positive deviation', p['scale'] > 0)
    E.ensure_eq('the law of the sample', (x - mu) * p['scale'],
                s * (v - p['loc']))


def fresh(E, path, *a, **k):
    """A component with a recording generator."""
    rng = k['rng'] = E.rng()
    return E.get(path)(*a, **k), rng


class Piecewise(Stub):
    def __init__(self, E):
        self.E = E
        self.s = E.real('sigma', lo=0)
        self.f = E.real('flip', lo=0, hi=1)
        self.m, self.rng = fresh(E, PW, [7, 3], [5], sigma=self.s,
                                 flip=self.f)
        self.y = E.real('y')

    def z(self, v):
        return self.E.log(self.f if v == 0 else 1 - self.f)

    def x_given(self, x, z):
        return normal(self.E, x, self.y + 2 * z - 1, self.s)

    def x(self, x):
        E = self.E
        return E.log(E.exp(self.x_given(x, 0) + self.z(0))
                     + E.exp(self.x_given(x, 1) + self.z(1)))

    def logp(self, t, c=None):
        return self.m.logpdf(0, t, c, {5: self.y})


PL, PS = [PW + '.logpdf', D + 'piecewise:logpdf_normal'], [PW + '.simulate']


@unit('C27', 'piecewise/joint density', PL)
def _(E):
    """z is 0 with probability flip; x given z is normal around y + 2z - 1."""
    W, x, z = Piecewise(E), E.real('x'), E.choice('z', [0, 1])
    joint = W.x_given(x, z) + W.z(z)
    E.ensure_eq('the joint density', W.logp({7: x, 3: z}), joint)
    E.ensure_eq('an empty constraint', W.logp({3: z, 7: x}, {}), joint)
    E.ensure_eq('the law of z', W.logp({3: z}), W.z(z))


@unit('C27', 'piecewise/density of x', PL)
def _(E):
    """The density of x is the sum of the joint density over z."""
    W, x = Piecewise(E), E.real('x')
    E.ensure_eq('the density of x', E.exp(W.logp({7: x})),
                E.exp(W.x_given(x, 0) + W.z(0))
                + E.exp(W.x_given(x, 1) + W.z(1)))


@unit('C27', 'piecewise/conditional densities', PL)
def _(E):
    """Conditional densities are quotients of joint and marginal ones."""
    W, x, z = Piecewise(E), E.real('x'), E.choice('z', [0, 1])
    E.ensure_eq('x given z', W.logp({7: x}, {3: z}), W.x_given(x, z))
    E.ensure_eq('z given x', W.logp({3: z}, {7: x}) + W.logp({7: x}),
                W.x_given(x, z) + W.z(z))


@unit('C27', 'piecewise/simulate', PS)
def _(E):
    """z is drawn from its law and x from the law given z; only what is asked
    for is returned."""
    W = Piecewise(E)
    T = E.choice('targets', [[7, 3], [3, 7], [7], [3]])
    s = W.m.simulate(0, T, E.choice('C', [None, {}]), {5: W.y})
    E.ensure('the targets', set(s) == set(T))
    zs = [d for d in W.rng.draws if d[0] == 'choice']
    xs = [d for d in W.rng.draws if d[0] != 'choice']
    E.ensure('at most one draw of each', len(zs) <= 1 and len(xs) <= 1)
    E.ensure('z is drawn', len(zs) == 1)
    E.same_law('the law of z', zs[0], [0, 1], lambda v: W.z(v))
    z = zs[0][2]
    if 3 in T:
        E.ensure_eq('z', s[3], z)
    if 7 in T:
        E.ensure('x is drawn', len(xs) == 1)
        is_normal(E, s[7], xs[0], W.y + 2 * z - 1, W.s)


@unit('C27', 'piecewise/simulate x given z', PS)
def _(E):
    W, z = Piecewise(E), E.choice('z', [0, 1])
    s = W.m.simulate(0, [7], {3: z}, {5: W.y})
    E.ensure('the targets', set(s) == {7})
    E.ensure('one draw', len(W.rng.draws) == 1)
    is_normal(E, s[7], W.rng.draws[0], W.y + 2 * z - 1, W.s)


@unit('C27', 'piecewise/simulate z given x', PS)
def _(E):
    W, x = Piecewise(E), E.real('x')
    s = W.m.simulate(0, [3], {7: x}, {5: W.y})
    E.ensure('the targets', set(s) == {3})
    E.ensure('one draw', len(W.rng.draws) == 1)
    E.same_law('the law of z given x', W.rng.draws[0], [0, 1],
               lambda v: W.x_given(x, v) + W.z(v))
    E.ensure_eq('z', s[3], W.rng.draws[0][2])


@unit('C27', 'piecewise/queries it does not answer', PL + PS)
def _(E):
    W, x, z = Piecewise(E), E.real('x'), E.choice('z', [0, 1])
    bad = (ValueError, AssertionError)
    E.raises(bad, lambda: W.logp({7: x}, {3: z, 7: x}))
    E.raises(bad, lambda: W.logp({7: x}, {7: x}))
    E.raises(bad, lambda: W.logp({}))
    E.raises(bad, lambda: W.m.logpdf(0, {7: x}, None, {6: W.y}))
    E.raises(bad, lambda: W.m.simulate(0, [7], {3: z, 7: x}, {5: W.y}))
    E.raises(bad, lambda: W.m.simulate(0, [3], {3: z}, {5: W.y}))
    E.raises(bad, lambda: W.m.simulate(0, [7], None, {6: W.y}))
    E.ensure('nothing is drawn', not W.rng.draws)


def table(E, m, rng, inputs, n, outside):
    """A component over 0 .. n - 1: a law that adds up to one, and is that of
    the samples."""
    logp = [m.logpdf(0, {2: i}, None, inputs) for i in range(n)]
    total = 0
    for p in logp:
        total = total + E.exp(p)
    E.ensure('the law adds up to one',
             E.And(total - 1 < 1e-9, total - 1 > -1e-9))
    E.ensure('nothing else is possible',
             E.is_neginf(m.logpdf(0, {2: outside}, None, inputs)))
    s = m.simulate(0, [2], None, inputs)
    E.ensure('the target', set(s) == {2})
    E.ensure('one draw', len(rng.draws) == 1)
    E.same_law('the law of the sample', rng.draws[0], list(range(n)),
               lambda i: logp[i])
    E.ensure_eq('the sample', s[2], rng.draws[0][2])


TF = ['.logpdf', '.simulate']


@unit('C27', 'two way', [TW + f for f in TF + ['.retrieve_y_for_x']])
def _(E):
    m, rng = fresh(E, TW, [2], [6])
    y = E.choice('y', [0, 1])
    table(E, m, rng, {6: y}, 2, E.choice('outside', [-1, 2, 7, .5]))
    E.ensure('the input that makes an output likely',
             E.exp(m.logpdf(0, {2: y}, None, {6: m.retrieve_y_for_x(y)}))
             > E.exp(m.logpdf(0, {2: 1 - y}, None,
                              {6: m.retrieve_y_for_x(y)})))
    E.raises((ValueError, AssertionError), lambda: m.logpdf(
        0, {2: 0}, None, {6: E.choice('bad', [2, -1, .5])}))
    E.raises(ValueError, lambda: m.retrieve_y_for_x(2))


@unit('C27', 'four way', [FW + f for f in TF + [
    '.lookup_quadrant', '.retrieve_y_for_x']])
def _(E):
    m, rng = fresh(E, FW, [2], [6, 1])
    y = {6: E.real('y0'), 1: E.real('y1')}
    table(E, m, rng, y, 4, E.choice('outside', [-1, 4, 3.5]))


@unit('C27', 'four way/quadrants', [FW + f for f in TF + [
    '.lookup_quadrant', '.retrieve_y_for_x']])
def _(E):
    """Each quadrant has an output that it makes likely."""
    m, rng = fresh(E, FW, [2], [6, 1])
    y = {6: E.real('y0'), 1: E.real('y1')}
    q = m.lookup_quadrant(y[6], y[1])
    E.ensure('right or left', (y[6] >= 0) if q in (0, 2) else (y[6] <= 0))
    E.ensure('up or down', (y[1] >= 0) if q in (0, 1) else (y[1] <= 0))
    n = E.choice('n', [0, 1, 2, 3])
    E.ensure('a point of each quadrant',
             m.lookup_quadrant(*m.retrieve_y_for_x(n)) == n)
    for i in range(4):
        E.ensure('the quadrant is the likely output', E.exp(
            m.logpdf(0, {2: q}, None, y)) >= E.exp(
                m.logpdf(0, {2: i}, None, y)))
    E.raises(ValueError, lambda: m.retrieve_y_for_x(4))


@unit('C27', 'troll normal', [TN + f for f in TF + [
    '._gaussian_log_pdf', '._retrieve_location', '._retrieve_scale']])
def _(E):
    """Normal around the first input; the deviation is one more than the
    size of the second."""
    m, rng = fresh(E, TN, [2], [6, 1])
    a, b, x = E.real('location'), E.real('scale'), E.real('x')
    s = E.If(b >= 0, b, -b) + 1
    E.ensure_eq('the density', m.logpdf(0, {2: x}, None, {6: a, 1: b}),
                normal(E, x, a, s))
    got = m.simulate(0, [2], None, {1: b, 6: a})
    E.ensure('the target', set(got) == {2})
    E.ensure('one draw', len(rng.draws) == 1)
    is_normal(E, got[2], rng.draws[0], a, s)


@unit('C27', 'troll normal/rows', [TN + '.incorporate', TN + '.unincorporate'])
def _(E):
    """Rows come and go once."""
    m, _ = fresh(E, TN, [2], [6, 1])
    E.ensure('none at first', not m.rowids)
    bad = (ValueError, AssertionError)
    rows = E.map('rows', lambda k: 0)
    m.rowids = E.keyset(rows)
    a, b = E.int('a'), E.int('b')
    there = E.has(rows, b)
    if E.has(rows, a):
        E.raises(bad, lambda: m.incorporate(a, {2: 1.}, {6: 0., 1: 0.}))
        m.unincorporate(a)
        now = False
    else:
        E.raises(bad, lambda: m.unincorporate(a))
        m.incorporate(a, {2: 0.}, {6: 0., 1: 0.})
        now = True
    E.ensure('exactly that row', (b in m.rowids)
             == (now if E.truth(E.eq(a, b)) else there))


@unit('C27', 'saved', [c + f for c in (PW, TW, FW, TN, BB)
                       for f in ('.to_metadata', '.from_metadata')])
def _(E):
    """The metadata names the class and rebuilds the component."""
    path = E.choice('class', [PW, TW, FW, TN, BB])
    o, i = ([2, 9], [6]) if path == PW else ([2], [6]) if path == TW else \
        ([2], [6, 1])
    k = {}
    if path == PW:
        k = dict(sigma=E.real('sigma', lo=0), flip=E.real('flip', lo=0, hi=1))
    m = E.get(path)(list(o), list(i), **k)
    md = m.to_metadata()
    E.ensure('the class', tuple(md['factory']) == tuple(path.split(':')))
    cls = E.get(':'.join(md['factory']))
    r = cls.from_metadata(md)
    E.ensure('its class', type(r) is E.get(path))
    E.ensure_eq('outputs', list(r.outputs), o)
    E.ensure_eq('inputs', list(r.inputs), i)
    for name, v in k.items():
        E.ensure_eq(name, getattr(r, name), v)


@unit('C27', 'bare bones', [BB + f for f in TF])
def _(E):
    m = E.get(BB)([4, 2], [1])
    E.ensure('the density', m.logpdf(0, {4: E.real('x')}) == 0)
    E.ensure('one sample', m.simulate(0, [4, 2]) == {4: 1, 2: 1})
    got = m.simulate(0, [4, 2], N=3)
    E.ensure('many samples', list(got) == [{4: 1, 2: 1}] * 3)


# ---- two dimensions

@unit('C27', 'undirected/routing', [UXY + f for f in TF])
def _(E):
    """Joint, marginal and conditional queries go to the functions of that
    name, with the values at their places."""
    m, rng = fresh(E, UXY, outputs=[3, 8], noise=E.real('noise', lo=0, hi=1))
    a, b = E.real('a'), E.real('b')
    J, M, C = E.func('joint'), E.func('marginal'), E.func('conditional')
    E.replace(m, 'logpdf_joint', lambda x, y: J(x, y))
    E.replace(m, 'logpdf_marginal', lambda z: M(z))
    E.replace(m, 'logpdf_conditional', lambda w, z: C(w, z))
    E.replace(m, 'simulate_joint', lambda: [a, b])
    E.replace(m, 'simulate_conditional', lambda z: z + a)
    E.ensure_eq('joint', m.logpdf(0, {3: a, 8: b}), J(a, b))
    E.ensure_eq('marginal', m.logpdf(0, {8: b}, {}), M(b))
    E.ensure_eq('conditional', m.logpdf(0, {8: b}, {3: a}), C(b, a))
    E.ensure_eq('and the other', m.logpdf(0, {3: b}, {8: a}), C(b, a))
    s = m.simulate(0, [8, 3])
    E.ensure('the targets', set(s) == {3, 8})
    E.ensure_eq('the first', s[3], a)
    E.ensure_eq('the second', s[8], b)
    s = m.simulate(0, [8], {})
    E.ensure('the target', set(s) == {8})
    E.ensure_eq('the marginal', s[8], b)
    s = m.simulate(0, [8], {3: b})
    E.ensure('the target alone', set(s) == {8})
    E.ensure_eq('the conditional', s[8], b + a)


@unit('C27', 'directed/routing', [DXY + f for f in TF])
def _(E):
    """The network answers; without one there is no answer, and the class
    itself has none."""
    E.raises(Exception, lambda: E.get(DXY)())
    m = E.bare(E.get(DXY))
    m.network = None
    E.raises(ValueError, lambda: m.logpdf(0, {0: 1.}))
    E.raises(ValueError, lambda: m.simulate(0, [0]))
    x = E.real('x')
    m.network = net = Stub()
    log = []

    def ask(kind):
        def f(rowid, targets, constraints=None, inputs=None, N=None):
            log.append((kind, rowid, targets, constraints, inputs, N))
            return x
        return f
    net.logpdf, net.simulate = ask('logpdf'), ask('simulate')
    q, c, i, n = {0: 1.}, {1: 2.}, {5: 3.}, E.choice('N', [None, 1, 7])
    E.ensure_eq('the answer', m.logpdf(4, q, c, i), x)
    E.ensure_eq('the sample', m.simulate(4, [0], c, i, n), x)
    E.ensure_eq('the answer without conditions', m.logpdf(4, q), x)
    E.ensure('the queries', log == [
        ('logpdf', 4, q, c, i, None), ('simulate', 4, [0], c, i, n),
        ('logpdf', 4, q, None, None, None)], log)


def two(E, path):
    n = E.real('noise', lo=0, hi=1)
    m, rng = fresh(E, path, outputs=[3, 8], noise=n)
    return m, rng, n


@unit('C27', 'dots/densities', [DOTS + f for f in (
    '.logpdf_joint', '.logpdf_marginal', '.logpdf_conditional')])
def _(E):
    """Four equally likely dots at the corners of a square."""
    m, rng, n = two(E, DOTS)
    a, b = E.real('a'), E.real('b')

    def edge(x):
        return (E.exp(normal(E, x, -1, n)) + E.exp(normal(E, x, 1, n))) / 2.
    E.ensure_eq('the marginal density', E.exp(m.logpdf(0, {8: b})), edge(b))
    E.ensure_eq('the conditional density',
                E.exp(m.logpdf(0, {8: b}, {3: a})), edge(b))
    E.ensure_eq('the joint density', E.exp(m.logpdf(0, {3: a, 8: b})), sum(
        E.exp(normal(E, a, p, n) + normal(E, b, q, n)) / 4.
        for p in (-1, 1) for q in (-1, 1)))


@unit('C27', 'dots/simulate', [DOTS + f for f in (
    '.simulate_joint', '.simulate_conditional')])
def _(E):
    m, rng, n = two(E, DOTS)
    s = m.simulate(0, [3, 8])
    E.ensure('a dot and two normal draws',
             [d[0] for d in rng.draws] == ['choice', 'normal', 'normal'])
    E.same_law('the dot', rng.draws[0], [0, 1, 2, 3], lambda i: 0.)
    d = rng.draws[0][2]
    is_normal(E, s[3], rng.draws[1], 1 if d % 2 else -1, n)
    is_normal(E, s[8], rng.draws[2], 1 if d // 2 else -1, n)
    del rng.draws[:]
    s = m.simulate(0, [8], {3: E.real('a')})
    E.ensure('the draws', [d[0] for d in rng.draws][:2]
             == ['choice', 'normal'])
    E.same_law('the dot again', rng.draws[0], [0, 1, 2, 3], lambda i: 0.)
    d = rng.draws[0][2]
    is_normal(E, s[8], rng.draws[1], 1 if d % 2 else -1, n)


def bivariate(E, x, mu, cov):
    """The log density of the normal law of two variables."""
    (a, b), (c, d) = cov
    det = a * d - b * c
    u, v = x[0] - mu[0], x[1] - mu[1]
    q = (d * u * u - (b + c) * u * v + a * v * v) / det
    return -E.log(2 * E.pi) - E.log(det) / 2. - q / 2.


def assume_mvnormal(E):
    E.patch('cgpm.utils.mvnormal:logpdf',
            lambda X, Mu, Sigma: bivariate(
                E, X, Mu, [list(r) for r in Sigma]))


LF = ['.logpdf_joint', '.logpdf_marginal', '.logpdf_conditional',
      '.conditional_mean', '.conditional_variance']


@unit('C27', 'linear/densities', [LIN + f for f in LF])
def _(E):
    """Two standard normal variables of correlation 1 - noise; the
    conditional density is the quotient of the joint and the marginal."""
    assume_mvnormal(E)
    m, rng, n = two(E, LIN)
    a, b = E.real('a'), E.real('b')
    r = 1 - n
    joint = bivariate(E, [a, b], [0, 0], [[1, r], [r, 1]])
    E.ensure_eq('the joint density', m.logpdf(0, {3: a, 8: b}), joint)
    E.ensure_eq('the marginal density', m.logpdf(0, {3: a}),
                normal(E, a, 0, 1))
    E.positive('the variance', 1 - r * r)
    E.ensure_eq('the conditional density', m.logpdf(0, {8: b}, {3: a}),
                normal(E, b, r * a, E.sqrt(1 - r * r)))


def covariance(E, draw, want):
    kind, p, v = draw
    E.ensure('a normal vector', kind == 'multivariate_normal', kind)
    E.ensure_eq('its mean', list(p['mean']), [0, 0])
    E.ensure_eq('its covariance', [list(r) for r in p['cov']], want)
    return v


@unit('C27', 'linear/simulate', [LIN + f for f in (
    '.simulate_joint', '.simulate_conditional')])
def _(E):
    m, rng, n = two(E, LIN)
    r = 1 - n
    s = m.simulate(0, [8, 3])
    E.ensure('one draw', len(rng.draws) == 1)
    v = covariance(E, rng.draws[0], [[1, r], [r, 1]])
    E.ensure_eq('the sample', [s[3], s[8]], [v[0], v[1]])
    del rng.draws[:]
    a = E.real('a')
    s = m.simulate(0, [8], {3: a})
    E.ensure('one draw again', len(rng.draws) == 1)
    E.positive('the variance', 1 - r * r)
    is_normal(E, s[8], rng.draws[0], r * a, E.sqrt(1 - r * r))


@unit('C27', 'cross', [XC + '.logpdf_joint', XC + '.simulate_joint'])
def _(E):
    """One of two normal laws of opposite correlation, with equal
    probability."""
    assume_mvnormal(E)
    m, rng, n = two(E, XC)
    a, b = E.real('a'), E.real('b')
    r = 1 - n
    E.ensure_eq('the joint density', E.exp(m.logpdf(0, {3: a, 8: b})), (
        E.exp(bivariate(E, [a, b], [0, 0], [[1, r], [r, 1]]))
        + E.exp(bivariate(E, [a, b], [0, 0], [[1, -r], [-r, 1]]))) / 2.)
    s = m.simulate(0, [3, 8])
    E.ensure('two draws', len(rng.draws) == 2)
    kind, p, u = rng.draws[0]
    E.ensure('a coin', kind == 'uniform')
    E.ensure_eq('of the unit interval', [p['low'], p['high']], [0, 1])
    k = E.If(u < .5, r, -r)
    v = covariance(E, rng.draws[1], [[1, k], [k, 1]])
    E.ensure_eq('the sample', [s[3], s[8]], [v[0], v[1]])


@unit('C27', 'ring', [RING + '.simulate_joint'])
def _(E):
    """A uniform angle, and a uniform distance from 1 - noise to 1."""
    m, rng, n = two(E, RING)
    s = m.simulate(0, [3, 8])
    E.ensure('two uniform draws', [d[0] for d in rng.draws]
             == ['uniform', 'uniform'])
    (_, p, t), (_, q, d) = rng.draws
    E.ensure_eq('the angle', [p['low'], p['high']], [0., 2 * E.pi])
    E.ensure_eq('the distance', [q['low'], q['high']], [1 - n, 1])
    E.ensure_eq('the point', [s[3], s[8]], [E.cos(t) * d, E.sin(t) * d])


@unit('C27', 'uniform', [UX + f for f in TF])
def _(E):
    a = E.real('low')
    b = a + E.real('width', lo=0)
    m, rng = fresh(E, UX, outputs=[3], low=a, high=b)
    x = E.real('x')
    got = m.logpdf(0, {3: x})
    if a <= x and x <= b:
        E.ensure_eq('inside', got, -E.log(b - a))
    else:
        E.ensure('outside', E.is_neginf(got))
    s = m.simulate(0, [3])
    E.ensure('the target', set(s) == {3})
    E.ensure('one uniform draw', [d[0] for d in rng.draws] == ['uniform'])
    _, p, u = rng.draws[0]
    E.ensure_eq('the law', (s[3] - a) * (p['high'] - p['low']),
                (b - a) * (u - p['low']))


def on(E, path):
    n = E.real('noise', lo=0, hi=1)
    m, rng = fresh(E, path, outputs=[8], inputs=[3], noise=n)
    return m, rng, n, E.real('x'), E.real('y')


@unit('C27', 'sine', [SY + f for f in TF])
def _(E):
    """Uniform between the cosine and the noise towards zero."""
    m, rng, n, x, y = on(E, SY)
    c = E.cos(x)
    got = m.logpdf(0, {8: y}, None, {3: x})
    lo = E.If(c < 0, c, c - n)
    if lo <= y and y <= lo + n:
        E.ensure_eq('inside', got, -E.log(n))
    else:
        E.ensure('outside', E.is_neginf(got))
    s = m.simulate(0, [8], None, {3: x})
    E.ensure('one uniform draw', [d[0] for d in rng.draws] == ['uniform'])
    _, p, u = rng.draws[0]
    E.ensure_eq('its range', [p['low'], p['high']], [0, n])
    E.ensure_eq('the sample', s[8], E.If(c < 0, c + u, c - u))


@unit('C27', 'parabola', [PY + f for f in TF])
def _(E):
    """Plus or minus the square, with uniform noise of either sign."""
    m, rng, n, x, y = on(E, PY)
    q = x * x
    got = m.logpdf(0, {8: y}, None, {3: x})
    up = E.truth(E.And(q - n <= y, y <= q + n))
    down = E.truth(E.And(q - n <= -y, -y <= q + n))
    if not up and not down:
        E.ensure('outside', E.is_neginf(got))
    else:
        E.ensure_eq('the density', E.exp(got) * 2 * n,
                    (.5 if up else 0.) + (.5 if down else 0.))
    s = m.simulate(0, [8], None, {3: x})
    E.ensure('two uniform draws', [d[0] for d in rng.draws]
             == ['uniform', 'uniform'])
    (_, p, u), (_, r, w) = rng.draws
    E.ensure_eq('the coin', [p['low'], p['high']], [0, 1])
    E.ensure_eq('the noise', [r['low'], r['high']], [-n, n])
    E.ensure_eq('the sample', s[8], E.If(u < .5, q + w, -q - w))


@unit('C27', 'diamond', [DY + '.simulate'])
def _(E):
    """Every sample lies on the (thick) sides of the diamond, above or below
    with equal probability, at every input."""
    m, rng, n, x, y = on(E, DY)
    E.assume(x >= -1)
    E.assume(x <= 1)
    s = m.simulate(0, [8], None, {3: x})
    E.ensure('two uniform draws', [d[0] for d in rng.draws]
             == ['uniform', 'uniform'])
    (_, p, u), (_, r, w) = rng.draws
    E.ensure_eq('the coin', [p['low'], p['high']], [0, 1])
    E.ensure_eq('the noise', [r['low'], r['high']], [0, n])
    y = s[8]
    size = E.If(x < 0, -x, x)
    top = 1 - size
    # Two sides of slope one or minus one, cut at the other side.
    rising = (u < .5)
    above = E.If(top - w >= -top, top - w, -top)
    below = E.If(-top + w <= top, -top + w, top)
    E.ensure_eq('the sample', y, E.If(
        E.eq(x < 0, rising) if not E.symbolic else
        E.Or(E.And(x < 0, rising), E.And(x >= 0, E.Not(rising))),
        above, below))
    E.ensure('on a side', E.Or(
        E.And(y <= top, y >= top - n), E.And(y >= -top, y <= n - top)))


@unit('C27', 'queries of the vertical variable that it does not answer',
      [c + f for c in (PY, SY) for f in TF] + [DY + '.simulate'])
def _(E):
    path = E.choice('class', [PY, SY, DY])
    m, rng, n, x, y = on(E, path)
    bad = (ValueError, AssertionError)
    E.raises(bad, lambda: m.simulate(0, [3], None, {3: x}))
    E.raises(bad, lambda: m.simulate(0, [8], None, {4: x}))
    if path != DY:
        E.raises(bad, lambda: m.simulate(0, [8], {9: y}, {3: x}))
        E.raises(bad, lambda: m.logpdf(0, {3: y}, None, {3: x}))
        E.raises(bad, lambda: m.logpdf(0, {8: y}, {9: y}, {3: x}))
        E.raises(bad, lambda: m.logpdf(0, {8: y}, None, {4: x}))
    E.ensure('nothing is drawn', not rng.draws)


def fits(x, cdf, cells=12):
    """A chi-square test at level 1e-9."""
    n = np.bincount(np.clip((cdf(np.array(x)) * cells).astype(int), 0,
                            cells - 1), minlength=cells)
    e = len(x) / float(cells)
    return ((n - e) ** 2 / e).sum() < st.chi2.ppf(1 - 1e-9, cells - 1)


def numeric_cdf(logp, lo, hi, n=40001):
    g = np.linspace(lo, hi, n)
    d = np.exp([logp(v) for v in g])
    c = np.concatenate([[0.], np.cumsum((d[1:] + d[:-1]) / 2)]) * (
        g[1] - g[0])
    return c[-1], lambda x: np.interp(x, g, c / c[-1])


@bounded('C27', 'samples and densities', [
    c + f for c in (PW, TN, DOTS, LIN, UX, PY, SY) for f in TF], trials=14,
    bound='3000 samples of each, chi-square at level 1e-9; the mass by '
          'quadrature to 1e-3')
def _(E):
    """The density integrates to one and is that of the samples, also for
    many samples of one query."""
    r = np.random.RandomState(E.r.randint(2 ** 31))
    path = [PW, TN, DOTS, LIN, UX, PY, SY][E.trial % 7]
    g = np.random.RandomState(r.randint(2 ** 31))
    x = float(r.uniform(-1, 1))
    noise = float(r.uniform(.1, .9))
    C = I = None
    if path == PW:
        m = E.get(path)([7, 3], [5], sigma=noise, flip=float(r.uniform(.2, .8)),
                        rng=g)
        t, I, span = 7, {5: x}, 12
        C = [None, {}, {3: 0}, {3: 1}][r.randint(4)]
    elif path == TN:
        m = E.get(path)([7], [6, 1], rng=g)
        t, I, span = 7, {6: x, 1: -noise}, 25
    elif path == UX:
        m = E.get(path)(outputs=[7], low=-noise, high=1 + x, rng=g)
        t, span = 7, 4
    elif path in (PY, SY):
        m = E.get(path)(outputs=[7], inputs=[5], noise=noise, rng=g)
        t, I, span = 7, {5: x}, 4
    else:
        m = E.get(path)(outputs=[7, 3], noise=noise, rng=g)
        t, span = 7, 12
        C = [None, {3: x}][r.randint(2)]
    E.note('case', (path, noise, x, C, I))
    mass, cdf = numeric_cdf(
        lambda v: m.logpdf(0, {t: float(v)}, C, I), -span, span)
    E.ensure('the density integrates to one', abs(mass - 1) < 1e-3, mass)
    s = m.simulate(0, [t], C, I, 3000)
    E.ensure('as many samples as asked for', len(s) == 3000)
    E.ensure('the law of the samples', fits([v[t] for v in s], cdf))


@bounded('C27', 'joint networks', [c + '.__init__' for c in (PARA, SIN, DIA)]
         + [DXY + f for f in TF], trials=9,
         bound='the three networks, 30 points and 200 samples each')
def _(E):
    """Parabola, Sin and Diamond: the joint density is that of x times that
    of y given x; a sample is on the curve; their generator decides."""
    r = np.random.RandomState(E.r.randint(2 ** 31))
    path = [PARA, SIN, DIA][E.trial % 3]
    noise = float(r.uniform(.05, .4))
    seed = int(r.randint(2 ** 31))

    def make(s=seed):
        return E.get(path)(outputs=[3, 8], noise=noise,
                           rng=np.random.RandomState(s))
    m = make()
    lo, hi = (-1.5 * math.pi, 1.5 * math.pi) if path == SIN else (-1, 1)

    def y_given(x, y):
        if path == SIN:
            a = math.cos(x) if math.cos(x) < 0 else math.cos(x) - noise
            return 1 / noise if a <= y <= a + noise else 0.
        return sum(.5 / (2 * noise) for s in (1, -1)
                   if abs(s * y - x * x) <= noise)
    E.ensure('no inputs', list(m.inputs) == [])
    S = m.simulate(None, [3, 8], N=200)
    E.ensure('as many samples as asked for', len(S) == 200)
    for s in S:
        E.ensure('the targets', set(s) == {3, 8})
        E.ensure('the range of x', lo <= s[3] <= hi)
        if path == DIA:
            size = abs(s[3]) + abs(s[8])
            E.ensure('on the diamond', 1 - noise - 1e-9 <= size <= 1 + 1e-9)
        else:
            E.ensure('on the curve', y_given(s[3], s[8]) > 0)
    again = make().simulate(None, [3, 8], N=200)
    E.ensure('the generator decides', [dict(s) for s in again]
             == [dict(s) for s in S])
    other = make(seed ^ 1).simulate(None, [3, 8], N=200)
    E.ensure('another generator, other samples', not any(
        s[3] == t[3] for s, t in zip(S, other)))
    x = float(r.uniform(-.9, .9))
    for s in m.simulate(None, [8], {3: x}, N=20):
        E.ensure('the target', set(s) == {8})
        E.ensure('on the curve at x', y_given(x, s[8]) > 0 if path != DIA
                 else abs(x) + abs(s[8]) <= 1 + 1e-9)
    for _ in range(0 if path == DIA else 30):
        x, y = float(r.uniform(lo * 1.2, hi * 1.2)), float(r.uniform(-1.2, 1.2))
        p = y_given(x, y) / (hi - lo) if lo <= x <= hi else 0.
        got = m.logpdf(None, {3: x, 8: y})
        E.ensure_eq('the joint density', math.exp(got), p)
        if lo <= x <= hi:
            E.ensure_eq('the density of x', m.logpdf(None, {3: x}),
                        -math.log(hi - lo))
            E.ensure_eq('y given x', math.exp(
                m.logpdf(None, {8: y}, {3: x})), y_given(x, y))
