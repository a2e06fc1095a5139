"""C05: hyperparameters, their grids, and the Gibbs update of a component;
C06: the Chinese restaurant process as a component."""
import math

from vf.spec import unit, bounded, Stub
from specs import prims
from specs.prims import PRIMS, OUT, arbitrary, build, same_data, check_inv
from specs.contracts import draw_contracts

COLLAPSED = [p for p in PRIMS.values()
             if p.key not in ('beta', 'normal_trunc')]
INF = float('inf')
ANY = (Exception,)


def n_values(E, p, n, k=None):
    class O(Stub):
        pass
    o = O()
    o.k = k
    return [prims.value(E, p, o, 'v') for _ in range(n)]


def add(p):
    T = p.path + ':' + p.cls

    @unit('C05', p.key + '/set_hypers', [T + '.set_hypers',
                                         T + '.get_hypers'])
    def _(E):
        o, h = arbitrary(E, p)
        data = dict(o.data) if not E.symbolic else o.data.clone()
        h2 = p.hypers(E)
        o.set_hypers(dict(h2))
        g = o.get_hypers()
        E.ensure('the reported hyperparameters have the right names',
                 sorted(g) == sorted(h2))
        for k in sorted(h2):
            E.ensure_eq('%s is what was set' % k, g[k], h2[k])
        same_data(E, o.data, data, 'set_hypers keeps the data')
        check_inv(E, p, o, 'set_hypers')

    @unit('C05', p.key + '/construct_hypers', [T + '.__init__',
                                               T + '.get_hypers'])
    def _(E):
        o, h = build(E, p)
        g = o.get_hypers()
        E.ensure('the reported hyperparameters have the right names',
                 sorted(g) == sorted(h))
        for k in sorted(h):
            E.ensure_eq('%s is the one given' % k, g[k], h[k])
        d = p.distargs(E)
        o2 = p.get(E)([OUT], [], distargs=d, rng=E.rng())
        for k in p.hyper_positive:
            E.ensure('default %s is positive' % k, o2.get_hypers()[k] > 0)

    for k in p.hyper_positive:
        def f(E, k=k):
            o, h = arbitrary(E, p)
            h2 = dict(p.hypers(E))
            h2[k] = -E.real('bad', lo=0, lo_open=False)
            E.raises(ANY, lambda: o.set_hypers(h2),
                     'a hyperparameter that must be positive is rejected')
            g = o.get_hypers()
            for j in sorted(h):
                E.ensure_eq('rejected hyperparameters change nothing: ' + j,
                            g[j], h[j])
        unit('C05', '%s/reject_%s' % (p.key, k), [T + '.set_hypers'])(f)

    names = {'normal': 'm r s nu', 'lognormal': 'm r s nu',
             'vonmises': 'a b k', 'bernoulli': 'alpha beta',
             'categorical': 'alpha', 'crp': 'alpha'}.get(p.key, 'a b').split()
    provable = p.key in ('bernoulli', 'categorical', 'crp', 'exponential',
                         'geometric')

    def grids(E):
        if E.symbolic:
            n = E.size('n', lo=1)
            X = E.table('X', n, E.func('x'))
            m = E.int('m', lo=2)
        else:
            n = E.int('n', lo=1, hi=8)
            X = n_values(E, p, n, 5)
            if E.flag('same'):
                X = [X[0]] * n
            m = E.int('m', lo=2, hi=40)
        g = p.get(E).construct_hyper_grids(X, n_grid=m)
        E.ensure('there is a grid for every hyperparameter',
                 sorted(g) == sorted(names))
        for k in names:
            if p.key == 'poisson' and k == 'a':
                E.ensure('the grid of a is not empty', E.length(g[k]) >= 1)
            else:
                E.ensure_eq('grid %s has as many points as asked' % k,
                            E.length(g[k]), m)
            if E.symbolic:
                i = E.int('i', lo=0, hi=m)
                pts = [g[k][i]]
            else:
                pts = list(g[k])
            for x in pts:
                if not E.symbolic:
                    E.ensure('grid %s is finite' % k, math.isfinite(x), x)
                if k in p.hyper_positive:
                    E.ensure('grid %s is positive' % k, x > 0, x)
        if not E.symbolic:
            o, h = build(E, p)
            for j, x in enumerate(X):
                o.incorporate(j, {OUT: min(x, o.k - 1) if p.key ==
                                  'categorical' else x})
            r = E.r
            h2 = dict((k, g[k][r.randint(len(g[k]))]) for k in names)
            o.set_hypers(h2)
            s = o.logpdf_score()
            E.ensure('every grid point gives a proper score',
                     not math.isnan(s) and s < INF, s)
    unit('C05', p.key + '/grids', [T + '.construct_hyper_grids'],
         prove=provable, trials=60, bounded=None if provable else
         'up to 8 values and 40 grid points')(grids)

    @unit('C05', p.key + '/transition_hypers',
          ['cgpm.primitives.distribution:DistributionGpm.transition_hypers',
           'cgpm.mixtures.dim:Dim.transition_hypers',
           T + '.construct_hyper_grids'],
          prove=False, trials=12,
          bounded='up to 6 rows, one sweep')
    def _(E):
        o, h = arbitrary(E, p, lo=1)
        data, stats = dict(o.data), dict(o.get_suffstats())
        h = dict(h)
        o.transition_hypers(N=1)
        E.ensure_eq('transition_hypers keeps the data', dict(o.data), data)
        E.ensure('transition_hypers keeps the statistics',
                 repr(o.get_suffstats()) == repr(stats))
        X = list(o.data.values())
        g = p.get(E).construct_hyper_grids(X)
        draws = [d for d in o.rng.draws if d[0] == 'choice']
        E.ensure_eq('one draw per hyperparameter with several grid points',
                    len(draws), sum(len(g[k]) > 1 for k in names))
        now = o.get_hypers()
        # replay the sweep: each draw is the conditional given the others
        order = {}
        left = [k for k in names]
        cur = dict(h)
        final = dict(now)
        import itertools
        ok = []
        for perm in itertools.permutations(names):
            cur = dict(h)
            good = True
            ds = list(draws)
            for k in perm:
                pts = list(g[k])
                if len(pts) == 1:
                    cur[k] = pts[0]
                    continue
                d = ds.pop(0)
                if len(pts) != len(d[1]['p']):
                    good = False
                    break
                w = []
                for x in pts:
                    cur[k] = x
                    o.set_hypers(dict(cur))
                    w.append(o.logpdf_score())
                w = [x if not math.isnan(x) else -INF for x in w]
                mx = max(w)
                w = [math.exp(x - mx) for x in w]
                t = sum(w)
                if not all(abs(a / t - b) < 1e-6
                           for a, b in zip(w, d[1]['p'])):
                    good = False
                    break
                cur[k] = pts[int(d[2])]
            if good and all(abs(cur[k] - final[k]) < 1e-9 for k in names):
                ok.append(perm)
        o.set_hypers(final)
        E.ensure('each hyperparameter is drawn from its grid with '
                 'probability proportional to the joint score', len(ok) >= 1)


for _p in COLLAPSED:
    add(_p)


# --------------------------------------------------------------------------
# Uncollapsed components: the target of the parameter update.

def capture(E):
    calls = []

    def mh(x, logpdf_target, jump_std, D, num_samples=1, burn=1, lag=1,
           rng=None):
        y = E.real('y', lo=D[0] if D[0] > -1e300 else None,
                   hi=D[1] if E.symbolic or D[1] < 1e300 else None) \
            if not E.symbolic else _between(E, D)
        calls.append((x, logpdf_target, D, y))
        return y
    E.patch('cgpm.utils.sampling:mh_sample', mh)
    return calls


def _between(E, D):
    y = E.real('y')
    E.assume(y > D[0])
    if not (isinstance(D[1], float) and D[1] == INF):
        E.assume(y < D[1])
    return y


def params(p):
    P = PRIMS[p]
    T = P.path + ':' + P.cls
    names = dict(beta=('strength', 'balance'),
                 normal_trunc=('mu', 'sigma'))[p]

    @unit('C05', p + '/transition_params', [T + '.transition_params'],
          trials=30)
    def _(E):
        o, h = arbitrary(E, P)
        data = dict(o.data) if not E.symbolic else o.data.clone()
        start = o.get_params()
        calls = capture(E)
        scores = []
        # the update of each parameter, with the others at their values
        cur = dict(start)
        if p == 'normal_trunc':
            E.assume(E.normcdf((o.h - o.mu) / (o.sigma * 1.))
                     - E.normcdf((o.l - o.mu) / (o.sigma * 1.)) > 1e-9)
        o.transition_params()
        E.ensure_eq('one update per parameter', len(calls), 2)
        end = o.get_params()
        done = []
        for x0, f, D, y in calls:
            k = [j for j in names if j not in done and
                 same(E, end[j], y)][0]
            done.append(k)
            E.ensure_eq('the update starts at the current value of ' + k,
                        x0, start[k])
            E.ensure_eq('the support of %s starts at its bound' % k, D[0],
                        o.l if k == 'mu' else 0)
            hi = dict(balance=1).get(k, o.h if k == 'mu' else INF)
            if isinstance(hi, float) and hi == INF:
                E.ensure('the support of %s is unbounded above' % k,
                         isinstance(D[1], float) and D[1] == INF)
            else:
                E.ensure_eq('the support of %s ends at its bound' % k, D[1],
                            hi)
        first, second = calls
        # target of the first update, given the old value of the second;
        # target of the second, given the new value of the first
        k1, k2 = done
        for k, (x0, f, D, y), other, ov in (
                (k1, first, k2, start[k2]), (k2, second, k1, end[k1])):
            setp(o, other, ov)
            a = _between(E, D) if E.symbolic else y
            setp(o, k, a)
            _norm(E, o, p)
            s1 = o.logpdf_score()
            t1 = f(a)
            setp(o, k, x0)
            _norm(E, o, p)
            s0 = o.logpdf_score()
            t0 = f(x0)
            E.ensure_eq('the target of %s is the joint score up to a '
                        'constant' % k, t1 - t0, s1 - s0)
            setp(o, k, end[k])
        same_data(E, o.data, data, 'transition_params keeps the data')
        check_inv(E, P, o, 'transition_params')

    @bounded('C05', p + '/transition_params/support',
             [T + '.transition_params'], trials=6,
             bound='one real update of up to 6 rows')
    def _(E):
        o, h = arbitrary(E, P)
        o.transition_params()
        q = o.get_params()
        if p == 'beta':
            E.ensure('strength stays positive', 0 < q['strength'] < INF)
            E.ensure('balance stays in (0, 1)', 0 < q['balance'] < 1)
        else:
            E.ensure('mu stays in its interval', o.l <= q['mu'] <= o.h)
            E.ensure('sigma stays positive', 0 < q['sigma'] < INF)


def _norm(E, o, p):
    if p == 'normal_trunc':
        E.assume(E.normcdf((o.h - o.mu) / (o.sigma * 1.))
                 - E.normcdf((o.l - o.mu) / (o.sigma * 1.)) > 1e-9)


def setp(o, k, v):
    setattr(o, k, v)


def same(E, a, b):
    if E.symbolic:
        return a is b or (hasattr(a, 't') and hasattr(b, 't')
                          and a.t.eq(b.t))
    return a == b


params('beta')
params('normal_trunc')


# --------------------------------------------------------------------------
# C06

CRP = PRIMS['crp']
CT = 'cgpm.primitives.crp:Crp'


def n_at(E, o, t):
    return E.fold(o.data, lambda k, v: E.If(v == t, 1, 0))


@unit('C06', 'predictive', [CT + '.logpdf', CT + '.calc_predictive_logp'])
def _(E):
    o, h = arbitrary(E, CRP)
    rowid = E.int('rowid', lo=0)
    E.assume(rowid not in o.data)
    t = E.int('t', lo=0, hi=None if E.symbolic else 8)
    n, N = n_at(E, o, t), E.length(o.data)
    E.ensure_eq('a seat is taken with probability n / (N + alpha), a fresh '
                'table with alpha / (N + alpha)',
                o.logpdf(rowid, {OUT: t}),
                E.log(E.If(n > 0, n, h['alpha'])) - E.log(N + h['alpha']))


@unit('C06', 'observed', [CT + '.logpdf'])
def _(E):
    o, h = arbitrary(E, CRP, lo=1)
    rowid = E.pick('rowid', o.data)
    t = E.int('t', lo=0, hi=None if E.symbolic else 7)
    r = o.logpdf(rowid, {OUT: t})
    if t == o.data[rowid]:
        E.ensure_eq('the table of a seated row has probability 1', r, 0)
    else:
        E.ensure('any other table has probability 0', E.is_neginf(r))


@unit('C06', 'score', [CT + '.logpdf_score', CT + '.calc_logpdf_marginal'])
def _(E):
    o, h = arbitrary(E, CRP)
    a, N = h['alpha'], E.length(o.data)
    tabs = o.counts
    want = (E.length(tabs) * E.log(a)
            + E.fold(tabs, lambda t, c: E.lgamma(c))
            + E.lgamma(a) - E.lgamma(N + a))
    E.ensure_eq('the score is the exchangeable partition probability',
                o.logpdf_score(), want)


def seats(E):
    o, h = arbitrary(E, CRP, lo=1)
    rowid = E.pick('rowid', o.data)
    return o, h, rowid


@bounded('C06', 'gibbs', [CT + '.gibbs_tables', CT + '.gibbs_logps',
                          CT + '.singleton'], trials=150,
         bound='up to 6 seated rows, up to 4 auxiliary tables')
def _(E):
    o, h, rowid = seats(E)
    m = E.int('m', lo=1, hi=5)
    old = set(o.counts)
    z = o.data[rowid]
    n = dict((t, sum(1 for r, v in o.data.items()
                     if v == t and r != rowid)) for t in old)
    single = n[z] == 0
    E.ensure_eq('singleton', bool(o.singleton(rowid)), single)
    ts = list(o.gibbs_tables(rowid, m=m))
    E.ensure('tables are offered once', len(set(ts)) == len(ts))
    E.ensure('every occupied table is offered', old <= set(ts))
    fresh = [t for t in ts if n.get(t, 0) == 0]
    E.ensure_eq('m tables are empty once the row has left', len(fresh), m)
    lp = list(o.gibbs_logps(rowid, m=m))
    E.ensure_eq('one weight per table', len(lp), len(ts))
    for t, l in zip(ts, lp):
        E.ensure_eq('the weight of a table is its number of other '
                    'customers, alpha / m when there are none', l,
                    math.log(n[t] if n.get(t, 0) else h['alpha'] / m))
    E.ensure('asking changes nothing', dict(o.counts) == dict(
        (t, n[t] + (t == z)) for t in old))
    E.raises(ANY, lambda: o.gibbs_tables(rowid, m=0), 'm must be positive')
    E.raises(ANY, lambda: o.gibbs_logps(rowid, m=0), 'm must be positive')
    r = max(o.data) + 1
    ts = list(o.gibbs_tables(r, m=m))
    E.ensure('an unseated row is offered the occupied tables and m fresh '
             'ones', set(ts) >= old and len(ts) == len(set(ts))
             == len(old) + m)


@unit('C06', 'singleton', [CT + '.singleton'])
def _(E):
    o, h, rowid = seats(E)
    z = o.data[rowid]
    n = n_at(E, o, z)
    r = o.singleton(rowid)
    E.ensure_eq('a singleton sits alone', E.If(r, 1, 0), E.If(n == 1, 1, 0))


@bounded('C06', 'gibbs/empty', [CT + '.gibbs_tables', CT + '.simulate'],
         trials=5, bound='no seated row')
def _(E):
    o, h = build(E, CRP)
    m = E.int('m', lo=1, hi=5)
    ts = list(o.gibbs_tables(0, m=m))
    E.ensure('m fresh tables', len(set(ts)) == m == len(ts), ts)
    E.ensure_eq('the first customer sits at table 0',
                o.simulate(0, [OUT]), {OUT: 0})


@bounded('C06', 'exchangeable', [CT + '.incorporate', CT + '.logpdf_score'],
         trials=40, bound='up to 7 rows')
def _(E):
    o, h = build(E, CRP)
    n = E.int('n', lo=1, hi=8)
    zs = [int(E.r.randint(4)) for _ in range(n)]
    tot = 0.
    for i, z in enumerate(zs):
        tot += o.logpdf(i, {OUT: z})
        o.incorporate(i, {OUT: z})
    # sequential probabilities of table labels: fresh labels are
    # interchangeable, so the chain rule gives the partition probability
    E.ensure_eq('seating one by one multiplies to the score',
                o.logpdf_score(), tot)
    E.r.shuffle(zs)
    o2, _ = build(E, CRP, h)
    for i, z in enumerate(zs):
        o2.incorporate(i, {OUT: z + 3})
    E.ensure_eq('the score depends on the block sizes only',
                o2.logpdf_score(), tot)


@bounded('C06', 'simulate', [CT + '.simulate'], trials=80,
         bound='up to 6 seated rows')
def _(E):
    o, h = arbitrary(E, CRP)
    rowid = max(list(o.data) + [0]) + 1
    x = o.simulate(rowid, [OUT])
    E.ensure_eq('the drawn table is returned',
                x, {OUT: prims.law_crp(E, CRP, o, h, o.rng.draws) or 0})
    if o.data:
        r = E.pick('r', o.data)
        E.ensure_eq('a seated row keeps its table', o.simulate(r, [OUT]),
                    {OUT: o.data[r]})


def gibbs_weight(E, o, h, rowid, m):
    """The prior weight of a table for a row: its other customers, or an even
    share of alpha when there are none."""
    z = o.data[rowid]

    def n(t):
        return n_at(E, o, t) - E.If(t == z, 1, 0)
    return n, lambda t: E.log(E.If(n(t) > 0, n(t), h['alpha'] / m))


@unit('C06', 'gibbs/weights', [CT + '.gibbs_tables', CT + '.gibbs_logps',
                               CT + '.singleton'])
def _(E):
    o, h, rowid = seats(E)
    m = E.int('m', lo=1, hi=None if E.symbolic else 5)
    n, w = gibbs_weight(E, o, h, rowid, m)
    ts = o.gibbs_tables(rowid, m=m)
    lp = o.gibbs_logps(rowid, m=m)
    E.family_eq('the weight of a table is its number of other customers, '
                'alpha / m when there are none', lp, E.mapped(w, ts))


@unit('C06', 'gibbs/tables', [CT + '.gibbs_tables', CT + '.singleton'])
def _(E):
    o, h, rowid = seats(E)
    m = E.int('m', lo=1, hi=None if E.symbolic else 5)
    n, w = gibbs_weight(E, o, h, rowid, m)
    ts = o.gibbs_tables(rowid, m=m)
    times = lambda t: E.sum(E.mapped(lambda x: 1 if x == t else 0, ts))
    z, alone = o.data[rowid], o.counts[o.data[rowid]] == 1
    left = lambda x: x in o.counts and not (x == z and alone)
    E.ensure_eq('m tables are empty once the row has left',
                E.sum(E.mapped(lambda x: 0 if left(x) else 1, ts)), m)
    t = E.pick('t', o.counts)
    E.ensure_eq('an occupied table is offered once', times(t), 1)
    u = E.int('u', lo=None if E.symbolic else 0)
    E.assume(u not in o.counts)
    E.ensure('no fresh table is offered twice', times(u) <= 1)
