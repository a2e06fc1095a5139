"""C09: queries of a mixture; C10: its bookkeeping; C11: Gibbs on rows."""
import math

import numpy as np

from specs import exactlaw, mixlib
from specs.mixlib import Mix, isnan, same, view_state
from vf.spec import unit, bounded

V = 'cgpm.mixtures.view:View'
NET = 'cgpm.network.importance:ImportanceNetwork'
ANY = (Exception,)
BOUND = 'up to 6 rows, 3 columns of 8 kinds, missing cells, any partition'


@bounded('C09', 'logpdf/hypothetical', [V + '.logpdf', NET + '.logpdf'],
         trials=120, bound=BOUND)
def _(E):
    m = Mix(E)
    v = m.view
    t, c = m.split()
    targets, constr = m.some_cells(t), m.some_cells(c)
    mode = E.choice('z', ['marginal', 'target', 'constraint'])
    k = E.choice('cluster', sorted(set(m.labels)) + [m.fresh()])
    if mode == 'target':
        targets[m.z] = k
    elif mode == 'constraint':
        constr[m.z] = k
    if not targets:
        return
    rowid = E.choice('rowid', [None, -1, m.n, m.n + 5])
    rowid = -1 if rowid is None else rowid
    before = view_state(v)
    E.note('query', (targets, constr))
    E.ensure_eq('logpdf is the conditional of the mixture', v.logpdf(
        rowid, dict(targets), dict(constr) or E.choice(
            'none', [None, {}])), m.conditional(targets, constr))
    E.ensure('a query changes nothing', same(before, view_state(v)))


@bounded('C09', 'logpdf/observed', [V + '.logpdf',
                                    V + '._populate_constraints'],
         trials=80, bound=BOUND)
def _(E):
    m = Mix(E, cols=int(E.r.randint(1, 4)), pnan=.3)
    v = m.view
    t, c = m.split()
    if not t:
        return
    r = int(E.r.randint(m.n))
    targets = m.some_cells(t)
    constr = {}
    for x in c:
        constr[x] = m.X[x][r]
        if isnan(constr[x]):
            constr.update(m.some_cells([x]))
    E.note('query', (r, targets, constr))
    k = m.labels[r]
    want = sum(m.lp_cell(x, y, k) for x, y in targets.items())
    before = view_state(v)
    E.ensure_eq('an observed row is queried within its cluster',
                v.logpdf(r, dict(targets), dict(constr)), want)
    E.ensure('a query changes nothing', same(before, view_state(v)))


@bounded('C09', 'normalised', [V + '.logpdf'], trials=30,
         bound='2 discrete columns, up to 5 rows')
def _(E):
    m = Mix(E, n=int(E.r.randint(1, 6)), cols=2, types=mixlib.DISCRETE)
    v = m.view
    sup = [range(2) if t == 'bernoulli' else range(d['k'])
           for t, d in zip(m.cctypes, m.distargs)]
    a, b = m.cols
    tot = sum(math.exp(v.logpdf(-1, {a: x, b: y}))
              for x in sup[0] for y in sup[1])
    E.ensure_eq('the joint sums to one', tot, 1.)
    x = int(E.r.choice(sup[0]))
    tot = sum(math.exp(v.logpdf(-1, {b: y}, {a: x})) for y in sup[1])
    E.ensure_eq('the conditional sums to one', tot, 1.)
    ks = sorted(set(m.labels)) + [m.fresh()]
    tot = sum(math.exp(v.logpdf(-1, {m.z: k}, {a: x})) for k in ks)
    E.ensure_eq('the clusters sum to one', tot, 1.)


def key(m, s, targets):
    return tuple((c, (('new',) if c == m.z and s[c] not in m.labels
                      else int(s[c]))) for c in sorted(targets))


@bounded('C09', 'simulate/law', [V + '.simulate', NET + '.simulate'],
         trials=40, bound='3 columns of which the targets are discrete, '
         'up to 5 rows; the exact law by enumeration of the draws')
def _(E):
    m = Mix(E, n=int(E.r.randint(1, 5)), cols=int(E.r.randint(1, 4)))
    disc = [c for c, t in zip(m.cols, m.cctypes) if t in mixlib.DISCRETE]
    rest = [c for c in m.cols if c not in disc]
    constr = m.some_cells([c for c in rest if E.r.randint(2)])
    t = []
    for c in disc:
        u = E.r.randint(3)
        if u == 0:
            constr.update(m.some_cells([c]))
        elif len(t) < 2:
            t.append(c)
    mode = E.choice('z', ['hidden', 'exposed', 'given'])
    if mode == 'given':
        constr[m.z] = E.choice('k', sorted(set(m.labels)) + [m.fresh()])
    elif mode == 'exposed':
        t.append(m.z)
    if not t:
        return
    E.note('query', (t, constr))
    N = E.choice('N', [None, 1])

    def run(rng):
        v = m.build(rng=rng)
        s = v.simulate(-1, list(t), dict(constr), None, N)
        if N is not None:
            assert isinstance(s, list) and len(s) == 1
            s = s[0]
        assert set(s) == set(t), s
        return key(m, s, t)
    sup = [[]]
    for c in sorted(t):
        if c == m.z:
            xs = sorted(set(m.labels)) + [m.fresh()]
        else:
            j = m.cols.index(c)
            xs = range(2 if m.cctypes[j] == 'bernoulli'
                       else m.distargs[j]['k'])
        sup = [s + [(c, x)] for s in sup for x in xs]
    want = {}
    for s in sup:
        s = dict(s)
        want[key(m, s, t)] = math.exp(m.conditional(s, constr))
    exactlaw.ensure_law(E, 'simulation follows the conditional', run, want,
                        seed=5)


@bounded('C09', 'simulate/many', [V + '.simulate'], trials=15,
         bound='2 discrete columns, 2000 samples, level 1e-10')
def _(E):
    m = Mix(E, n=int(E.r.randint(2, 6)), cols=2, types=mixlib.DISCRETE)
    a, b = m.cols
    sup = [range(2) if t == 'bernoulli' else range(d['k'])
           for t, d in zip(m.cctypes, m.distargs)]
    x = int(E.r.choice(sup[0]))
    exposed = E.flag('exposed')
    t = [b] + ([m.z] if exposed else [])
    ks = (sorted(set(m.labels)) + [m.fresh()]) if exposed else [None]
    want, counts = {}, {}
    for y in sup[1]:
        for k in ks:
            s = {b: y}
            if exposed:
                s[m.z] = k
            want[key(m, s, t)] = math.exp(m.conditional(s, {a: x}))
    ss = m.build(rng=np.random.RandomState(E.r.randint(2 ** 31))).simulate(
        -1, t, {a: x}, None, 2000)
    E.ensure('as many samples as asked', len(ss) == 2000)
    for s in ss:
        E.ensure('a sample has the targets', set(s) == set(t))
        counts[key(m, s, t)] = counts.get(key(m, s, t), 0) + 1
    E.ensure('samples follow the conditional (level 1e-10)',
             exactlaw.chi_tail(counts, want, 2000) > 1e-10, (counts, want))


@bounded('C09', 'simulate/cells', [V + '.simulate'], trials=40,
         bound='clusters 10^6 apart; up to 6 rows, 2 normal columns')
def _(E):
    """The value of a column is drawn from the cluster of the row."""
    m = Mix(E, cols=2, types=('normal',), pnan=0., build=False)
    for c, h in zip(m.cols, m.hypers):
        h.update(m=-1e6, r=1e-6, s=1., nu=5.)
        m.X[c] = [1e6 * z + 1e5 * m.cols.index(c) + E.r.normal()
                  for z in m.labels]
    m.alpha = 1e-9
    v = m.build()
    a, b = m.cols
    near = lambda c, x, k: abs(x - 1e6 * k - 1e5 * m.cols.index(c)) < 5e4
    for s in v.simulate(-1, [a, b, m.z], None, None, 10):
        E.ensure('every cell is drawn from the cluster reported with it',
                 near(a, s[a], s[m.z]) and near(b, s[b], s[m.z]), s)
    k = E.choice('k', sorted(set(m.labels)))
    s = v.simulate(-1, [a], {m.z: k})
    E.ensure('the given cluster is used', near(a, s[a], k), (k, s))
    s = v.simulate(-1, [b], {a: 1e6 * k + 1e5 * m.cols.index(a)})
    E.ensure('the constraint selects the cluster', near(b, s[b], k), (k, s))
    r = int(E.r.randint(m.n))
    before = view_state(v)
    s = v.simulate(r, [a, b])
    E.ensure('an observed row is simulated within its cluster',
             near(a, s[a], m.labels[r]) and near(b, s[b], m.labels[r]),
             (r, s))
    ss = v.simulate(r, [b], None, None, 3)
    E.ensure('N samples of an observed row', len(ss) == 3 and all(
        set(s) == set([b]) and near(b, s[b], m.labels[r]) for s in ss))
    E.ensure('simulation changes nothing', same(before, view_state(v)))


@bounded('C09', 'reject', [V + '._validate_cgpm_query',
                           V + '._populate_constraints'], trials=40,
         bound=BOUND)
def _(E):
    m = Mix(E, cols=3)
    v = m.view
    a, b, c = m.cols
    xa, xb = m.some_cells([a]), m.some_cells([b])
    VE = (ValueError,)
    before = view_state(v)
    E.raises(VE, lambda: v.simulate(-1, [a, a]), 'duplicated targets')
    E.raises(VE, lambda: v.simulate(-1, [a, b], xa),
             'targets and constraints overlap')
    E.raises(VE, lambda: v.logpdf(-1, dict(xa), xa),
             'targets and constraints overlap')
    r = int(E.r.randint(m.n))
    E.raises(VE, lambda: v.simulate(r, [a], {m.z: m.labels[r]}),
             'the cluster of an observed row is not constrained')
    E.raises(VE, lambda: v.logpdf(r, {m.z: m.labels[r]}),
             'the cluster of an observed row is not queried')
    if not isnan(m.X[b][r]):
        E.raises(VE, lambda: v.simulate(r, [a], {b: m.X[b][r] + 1}),
                 'a constraint contradicting an observed cell')
        E.raises(VE, lambda: v.logpdf(r, dict(xa), {b: m.X[b][r] + 1}),
                 'a constraint contradicting an observed cell')
    j = m.cols.index(a)
    bad = {'normal': None, 'bernoulli': 2, 'categorical': 17, 'poisson': -1,
           'geometric': -1, 'exponential': -1., 'lognormal': -1.,
           'vonmises': 100.}[m.cctypes[j]]
    if bad is not None:
        E.raises(ANY, lambda: v.logpdf(-1, dict(xb), {a: bad}),
                 'an impossible constraint')
        E.ensure_eq('an impossible target', v.logpdf(-1, {a: bad}, dict(xb)),
                    -math.inf)
    E.ensure('a rejected query changes nothing',
             same(before, view_state(v)))


# --------------------------------------------------------------------------
# C10: bookkeeping.

def canon_of(v, rows):
    z = v.Zr()
    return exactlaw.canon([z[r] for r in rows])


def check_view(E, m, v, Z, what, dims=None):
    """v holds the rows Z = {row: cluster} of m.X and nothing else."""
    n = 'after ' + what
    E.ensure_eq(n + ': the partition', dict(v.Zr()), dict(Z))
    E.ensure_eq(n + ': the cluster sizes', dict(
        (k, c) for k, c in v.Nk().items()), exactlaw.sizes(Z.values()))
    cols = dims if dims is not None else dict(
        (c, (t, d)) for c, t, d in zip(m.cols, m.cctypes, m.distargs))
    E.ensure(n + ': the columns', set(v.dims) == set(cols)
             and v.outputs[0] == m.z and set(v.outputs[1:]) == set(cols)
             and len(v.outputs) == 1 + len(cols), v.outputs)
    for c, (t, da) in cols.items():
        d = v.dims[c]
        E.ensure(n + ': a column takes the cluster of its mixture',
                 d.inputs[0] == m.z and d.cctype == t, (d.inputs, d.cctype))
        zr = dict((r, k) for r, k in Z.items() if not isnan(m.X[c][r]))
        E.ensure_eq(n + ': observed cells are assigned', dict(d.Zr), zr)
        E.ensure_eq(n + ': missing cells are kept apart', dict(d.Zi), dict(
            (r, k) for r, k in Z.items() if r not in zr))
        E.ensure(n + ': no cluster is left without a row',
                 set(d.clusters) <= set(Z.values()) and set(
                     zr.values()) <= set(d.clusters),
                 (set(d.clusters), Z))
        for k, o in d.clusters.items():
            E.ensure_eq(n + ': a cluster knows the hypers', dict(
                o.get_hypers()), dict(d.hypers))
            w = mixlib.component(E, t, d.hypers, da, [
                m.X[c][r] for r in sorted(zr) if zr[r] == k])
            E.ensure(n + ': a cluster summarises its rows',
                     same(dict(o.get_suffstats()), dict(w.get_suffstats()))
                     and o.N == w.N, (o.get_suffstats(), w.get_suffstats()))


def live(m, v):
    """The oracle m, seeing the current hyperparameters of v."""
    m.hypers = [dict(v.dims[c].hypers) for c in m.cols]
    m.alpha = v.alpha()


@bounded('C10', 'construct', [V + '.__init__', V + '.incorporate_dim',
                              V + '._bulk_incorporate'], trials=60,
         bound=BOUND)
def _(E):
    m = Mix(E)
    Z = dict(enumerate(m.labels))
    check_view(E, m, m.view, Z, 'construction')
    E.ensure_eq('alpha is stored', m.view.alpha(), m.alpha)
    for c, h in zip(m.cols, m.hypers):
        E.ensure_eq('the hypers are stored', dict(m.view.dims[c].hypers), h)
    E.ensure_eq('the number of rows', m.view.n_rows(), m.n)
    E.raises((ValueError,), lambda: E.get(V)(
        dict(m.X) or {-7: [0] * m.n}, outputs=[m.z], inputs=[3],
        rng=E.rng()), 'a mixture takes no inputs')
    E.raises((ValueError,), lambda: E.get(V)(
        dict(m.X) or {-7: [0] * m.n}, outputs=[], rng=E.rng()),
        'a mixture needs an output')


@bounded('C10', 'construct/prior', [V + '.__init__'], trials=12,
         bound='up to 4 rows; the exact law by enumeration')
def _(E):
    m = Mix(E, n=int(E.r.randint(1, 5)), cols=1, types=mixlib.DISCRETE)

    def run(rng):
        m.labels = None
        v = E.get(V)(
            dict(m.X), outputs=[m.z] + m.cols, alpha=m.alpha,
            cctypes=m.cctypes, distargs=m.distargs, hypers=m.hypers, rng=rng)
        return canon_of(v, range(m.n))
    exactlaw.ensure_law(
        E, 'without a partition, rows are seated by the prior', run,
        dict((p, math.exp(exactlaw.log_crp(p, m.alpha)))
             for p in exactlaw.partitions(range(m.n))))


@bounded('C10', 'score', [V + '.logpdf_score', V + '.logpdf_prior',
                          V + '.logpdf_likelihood'], trials=60, bound=BOUND)
def _(E):
    m = Mix(E)
    lp = exactlaw.log_crp(m.labels, m.alpha)
    E.ensure_eq('the prior', m.view.logpdf_prior(), lp)
    tot = m.lp_state(m.labels)
    E.ensure_eq('the likelihood', m.view.logpdf_likelihood(), tot - lp)
    E.ensure_eq('the score', m.view.logpdf_score(), tot)


def _histories(types, name):
    @bounded('C10', 'history/' + name, [
        V + '.incorporate', V + '.unincorporate', V + '._migrate_row',
        V + '.transition_rows', V + '.force_cell', V + '.update_cctype'],
        trials=120, bound='up to 8 operations on up to 8 rows, 3 columns')
    def _(E):
        m = Mix(E, types=types, n=int(E.r.randint(1, 6)))
        v = m.view
        Z = dict(enumerate(m.labels))
        if not m.cols:
            return
        for c in m.cols:
            m.X[c] = v.X[c]            # the mixture reads this table
        ops = ['remove', 'insert', 'seat', 'back', 'force', 'rows', 'dim',
               'cctype', 'hypers', 'migrate']
        cols = dict((c, (t, d)) for c, t, d in zip(
            m.cols, m.cctypes, m.distargs))
        gone = []
        log = []
        for _ in range(int(E.r.randint(1, 9))):
            op = ops[E.r.randint(len(ops))]
            log.append(op)
            E.note('ops', list(log))
            if op == 'remove' and len(Z) > 1:
                r = sorted(Z)[E.r.randint(len(Z))]
                v.unincorporate(r)
                del Z[r]
                gone.append(r)
            elif op == 'back' and gone:
                r = gone.pop(E.r.randint(len(gone)))
                k = E.choice('k', sorted(set(Z.values())) + [
                    max(Z.values()) + 1])
                v.incorporate(r, dict([(c, m.X[c][r]) for c in m.cols]
                                      + [(m.z, k)]))
                Z[r] = k
            elif op in ('insert', 'seat'):
                r = len(m.X[m.cols[0]])
                for c in m.cols:
                    t, d = cols[c]
                    m.X[c].append(mixlib.NAN if E.r.uniform() < .2
                                  else mixlib.value(E, t, d))
                obs = dict((c, m.X[c][r]) for c in m.cols)
                if op == 'insert':
                    v.incorporate(r, obs)
                    k = v.Zr(r)
                    E.ensure('a row joins a cluster or founds one',
                             float(k).is_integer() and k >= 0, k)
                else:
                    k = E.choice('k', sorted(set(Z.values())) + [
                        max(Z.values()) + 1])
                    obs[m.z] = k
                    v.incorporate(r, obs)
                Z[r] = k
            elif op == 'force':
                r = sorted(Z)[E.r.randint(len(Z))]
                some = [c for c in m.cols if E.r.randint(2)]
                new = {}
                for c in some:
                    t, d = cols[c]
                    new[c] = mixlib.value(E, t, d)
                v.force_cell(r, dict(new))
                for c in some:
                    m.X[c][r] = new[c]
            elif op == 'rows':
                before = dict(Z)
                sub = [r for r in sorted(Z) if E.r.randint(2)]
                v.transition_rows(rows=sub)
                Z = dict(v.Zr())
                E.ensure('only the rows asked for move', all(
                    Z[r] == before[r] for r in before if r not in sub)
                    and set(Z) == set(before), (before, Z, sub))
            elif op == 'dim':
                c = m.cols[E.r.randint(len(m.cols))]
                d = v.dims[c]
                s = v.unincorporate_dim(d)
                E.ensure('a removed column is gone', c not in v.dims
                         and c not in v.outputs)
                E.ensure_eq('the score of the column is returned', s,
                            d.logpdf_score())
                s = v.incorporate_dim(d, reassign=E.flag('reassign'))
                E.ensure_eq('the score of the column is returned', s,
                            d.logpdf_score())
            elif op == 'cctype':
                c = m.cols[E.r.randint(len(m.cols))]
                if not set(Z) == set(range(len(m.X[c]))):
                    continue
                t = {'normal': 'normal', 'poisson': 'normal',
                     'geometric': 'poisson', 'categorical': 'normal',
                     'bernoulli': 'categorical', 'exponential': 'normal',
                     'lognormal': 'exponential', 'vonmises': 'normal'}[
                    cols[c][0]]
                da = {'k': 2} if t == 'categorical' else None
                v.update_cctype(c, t, distargs=da)
                v.transition_dim_grids(cols=[c])
                v.transition_dim_hypers(cols=[c])
                cols[c] = (t, da)
            elif op == 'hypers':
                v.transition_dim_hypers(cols=[
                    m.cols[E.r.randint(len(m.cols))]] if E.r.randint(2)
                    else None)
                v.transition_crp_alpha()
            elif op == 'migrate':
                r = sorted(Z)[E.r.randint(len(Z))]
                k = E.choice('k', sorted(set(Z.values())) + [
                    max(Z.values()) + 1])
                v._migrate_row(r, k)
                Z[r] = k
            check_view(E, m, v, Z, op, cols)
        lp = exactlaw.log_crp([Z[r] for r in sorted(Z)], v.alpha())
        E.ensure_eq('the score after the history', v.logpdf_prior(), lp)


_histories(mixlib.COLLAPSED, 'kinds')
_histories(('bernoulli', 'normal'), 'two')


@bounded('C10', 'unincorporate/inverse', [V + '.unincorporate',
                                          V + '.incorporate'], trials=60,
         bound=BOUND)
def _(E):
    m = Mix(E, n=int(E.r.randint(2, 7)), cols=2)
    v = m.view
    for c in m.cols:
        m.X[c] = v.X[c]
    s = v.logpdf_score()
    r = int(E.r.randint(m.n))
    k = v.Zr(r)
    v.unincorporate(r)
    Z = dict(enumerate(m.labels))
    del Z[r]
    check_view(E, m, v, Z, 'removal')
    v.incorporate(r, dict([(c, m.X[c][r]) for c in m.cols] + [(m.z, k)]))
    Z[r] = k
    check_view(E, m, v, Z, 'reinsertion')
    E.ensure_eq('the score is restored', v.logpdf_score(), s)


# --------------------------------------------------------------------------
# C11: Gibbs on rows.

def forget(m, r):
    """The conditional of the cluster of row r given the others, as
    {partition: probability}."""
    w = {}
    others = [m.labels[i] for i in range(m.n) if i != r]
    for k in sorted(set(others)) + ['new']:
        z = list(m.labels)
        z[r] = k
        lab = list(exactlaw.canon(z))
        w[tuple(lab)] = m.lp_state(lab)
    return exactlaw.lognorm(w)


@bounded('C11', 'conditional', [
    V + '._gibbs_transition_row', V + '._logpdf_row_gibbs',
    V + '._logpdf_cell_gibbs', V + '._migrate_row'], trials=80,
    bound='up to 6 rows, 3 columns of 8 kinds, missing cells; the exact '
    'law by enumeration of the draws')
def _(E):
    m = Mix(E)
    r = int(E.r.randint(m.n))
    E.note('row', r)

    def run(rng):
        v = m.build(rng=rng)
        v.transition_rows(rows=[r])
        return canon_of(v, range(m.n))
    exactlaw.ensure_law(E, 'a row is reseated by its full conditional', run,
                        forget(m, r))


@bounded('C11', 'invariant', [V + '.transition_rows'], trials=12,
         bound='3 rows, 2 columns; the exact transition matrix')
def _(E):
    m = Mix(E, n=3, cols=int(E.r.randint(1, 3)))
    parts = exactlaw.partitions(range(3))
    pi = exactlaw.lognorm(dict((p, m.lp_state(p)) for p in parts))
    out = dict((p, 0.) for p in parts)
    ids = [int(i) for i in E.r.choice(8, size=3, replace=False)]
    for p in parts:
        m.labels = [ids[z] for z in p]

        def run(rng):
            v = m.build(rng=rng)
            v.transition_rows()
            return canon_of(v, range(3))
        try:
            got = exactlaw.law(run)
        except (exactlaw.NotDiscrete, exactlaw.TooMany):
            return
        for q, x in got.items():
            out[q] += pi[p] * x
    E.ensure_eq('a sweep over the rows leaves the posterior invariant', out,
                pi)


@bounded('C11', 'weights leave no trace', [V + '._logpdf_row_gibbs',
                                           V + '._logpdf_cell_gibbs'],
         trials=60, bound=BOUND)
def _(E):
    m = Mix(E, cols=int(E.r.randint(1, 4)))
    v = m.view
    r = int(E.r.randint(m.n))
    before = view_state(v)
    ks = sorted(set(m.labels)) + [m.fresh()]
    lp = v._logpdf_row_gibbs(r, list(ks))
    for k, x in zip(ks, lp):
        E.ensure_eq('the predictive of the row without itself', x, sum(
            m.lp_cell(c, m.X[c][r], k, but=(r,)) for c in m.cols
            if not isnan(m.X[c][r])))
    after = view_state(v)
    E.ensure('computing the weights changes nothing', same(before, after))


# --------------------------------------------------------------------------
# C17: relevance probability.

@bounded('C17', 'posterior', [
    'cgpm.mixtures.relevance:relevance_probability',
    V + '.relevance_probability'], trials=80,
    bound='up to 6 rows, 3 columns of 8 kinds, missing cells')
def _(E):
    m = Mix(E, n=int(E.r.randint(2, 7)), cols=int(E.r.randint(1, 4)))
    v = m.view
    t = int(E.r.randint(m.n))
    q = [r for r in range(m.n) if r != t and E.r.randint(2)] or [
        (t + 1) % m.n]
    q = [int(r) for r in E.r.permutation(q)]
    E.note('query', (t, q))
    rest = [m.labels[i] for i in range(m.n) if i != t and i not in q]
    ks = sorted(set(rest)) + ['n1']
    w = {}
    for kq in ks:
        for kt in ks + (['n2'] if kq == 'n1' else []):
            z = list(m.labels)
            for r in q:
                z[r] = kq
            z[t] = kt
            lab = list(exactlaw.canon(z))
            w[kq, kt] = m.lp_state(lab)
    p = exactlaw.lognorm(w)
    want = sum(x for (kq, kt), x in p.items() if kq == kt)
    before = view_state(v)
    got = v.relevance_probability(t, list(q), E.choice('col', m.cols))
    E.ensure_eq('the posterior probability of sharing the cluster of the '
                'query rows', got, want)
    after = view_state(v)
    E.ensure('the mixture is restored', same(before, after),
             (before, after))
    E.ensure_eq('a target among the query rows', v.relevance_probability(
        t, q + [t], m.cols[0]), 1.)
    E.raises((ValueError,), lambda: v.relevance_probability(t, [], m.cols[0]),
             'no query rows')
    E.raises((ValueError,), lambda: v.relevance_probability(t, q, 10 ** 5),
             'an unknown column')
