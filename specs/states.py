"""C12: queries of a CrossCat state; C13: its bookkeeping; C14: Gibbs on
columns; C15: schedules of kernels."""
import math

import numpy as np

from specs import exactlaw, mixlib, views
from specs.mixlib import St, isnan, same, state_state
from vf.spec import unit, bounded

S = 'cgpm.crosscat.state:State'
SM = 'cgpm.crosscat.sampling'
ANY = (Exception,)
VE = (ValueError,)
BOUND = 'up to 5 rows, 4 columns of 8 kinds in any views, missing cells'


@bounded('C12', 'logpdf', [S + '.logpdf', SM + ':state_logpdf',
                           SM + ':view_logpdf'], trials=120, bound=BOUND)
def _(E):
    st = St(E)
    s = st.state
    t, c = st.split()
    targets, constr = st.some_cells(t), st.some_cells(c)
    before = state_state(s)
    r = E.choice('rowid', [None, -1, st.n, st.n + 3])
    E.note('query', (targets, constr))
    E.ensure_eq('logpdf multiplies the conditionals of the views', s.logpdf(
        r, dict(targets), dict(constr) or E.choice('none', [None, {}])),
        st.conditional(targets, constr))
    E.ensure('a query changes nothing', same(before, state_state(s)))


@bounded('C12', 'logpdf/observed', [S + '.logpdf', SM + ':view_logpdf'],
         trials=80, bound=BOUND)
def _(E):
    st = St(E, pnan=.5)
    s = st.state
    r = int(E.r.randint(st.n))
    miss = [c for c in st.cols if isnan(st.X[c][r])]
    if not miss:
        return
    t = [c for c in miss if E.r.randint(2)] or miss[:1]
    targets = st.some_cells(t)
    constr = {}
    for c in st.cols:
        if c not in t and E.r.randint(2):
            constr[c] = st.X[c][r]
            if isnan(constr[c]):
                constr.update(st.some_cells([c]))
    E.note('query', (r, targets, constr))
    E.ensure_eq('an observed row is queried within its clusters',
                s.logpdf(r, dict(targets), dict(constr)),
                st.conditional(targets, {}, r))
    E.raises(VE, lambda: s.logpdf(r, dict((c, 1.) for c in st.cols if
                                          c not in miss) or {st.cols[0]: 1.,
                                                             'x': 0}),
             'an observed cell is not queried') if len(miss) < len(
        st.cols) else None


@bounded('C12', 'reject', [S + '._validate_cgpm_query'], trials=40,
         bound=BOUND)
def _(E):
    st = St(E, cols=3, pnan=.3)
    s = st.state
    a, b, c = st.cols
    xa, xb = st.some_cells([a]), st.some_cells([b])
    before = state_state(s)
    E.raises(VE, lambda: s.simulate(-1, [a, a]), 'duplicated targets')
    E.raises(VE, lambda: s.simulate(-1, [a, b], xa), 'overlap')
    E.raises(VE, lambda: s.logpdf(-1, dict(xa), xa), 'overlap')
    r = int(E.r.randint(st.n))
    if not isnan(st.X[b][r]):
        E.raises(VE, lambda: s.simulate(r, [a], {b: st.X[b][r] + 1}),
                 'a constraint contradicting an observed cell')
        E.raises(VE, lambda: s.logpdf(r, dict(xb)),
                 'an observed cell is not queried')
    bad = {'bernoulli': 2, 'categorical': 17, 'poisson': -1, 'geometric': -1,
           'exponential': -1., 'lognormal': -1., 'vonmises': 100.}.get(
        st.cctypes[0])
    if bad is not None and st.Zv[a] == st.Zv[b]:
        E.raises(VE, lambda: s.logpdf(-1, dict(xb), {a: bad}),
                 'an impossible constraint')
        E.raises(VE, lambda: s.simulate(-1, [b], {a: bad}),
                 'an impossible constraint')
    E.ensure('a rejected query changes nothing',
             same(before, state_state(s)))


def law_of(st, targets, constr, copies=1):
    one = {}
    sup = [{}]
    for c in sorted(targets):
        sup = [dict(s, **{'': 0}) if 0 else dict(list(s.items()) + [(c, x)])
               for s in sup for x in st.support(c)]
    for s in sup:
        one[tuple(s[c] for c in sorted(targets))] = math.exp(
            st.conditional(s, constr))
    out = {(): 1.}
    for _ in range(copies):
        out = dict((k + (o,), p * q) for k, p in out.items()
                   for o, q in one.items())
    return out


@bounded('C12', 'simulate/law', [S + '.simulate', SM + ':state_simulate',
                                 SM + ':view_simulate'], trials=50,
         bound='discrete targets, up to 4 rows; 1 or 2 joint samples; the '
         'exact law by enumeration of the draws')
def _(E):
    st = St(E, n=int(E.r.randint(1, 5)), cols=int(E.r.randint(1, 4)),
            types=('bernoulli', 'bernoulli', 'categorical', 'normal'))
    disc = [c for c, t in zip(st.cols, st.cctypes)
            if t in mixlib.DISCRETE]
    constr, t = {}, []
    for c in st.cols:
        if c in disc and len(t) < 2 and E.r.randint(3):
            t.append(c)
        elif E.r.randint(2):
            constr.update(st.some_cells([c]))
    if not t:
        return
    N = E.choice('N', [None, 1, 2])
    E.note('query', (t, constr, N))
    r = E.choice('rowid', [None, -1, st.n])

    def run(rng):
        ss = st.build(rng=rng).simulate(r, list(t), dict(constr) or None,
                                        None, N)
        if N is None:
            ss = [ss]
        ss = list(ss)
        assert len(ss) == (N or 1) and all(set(x) == set(t) for x in ss), ss
        return tuple(tuple(int(x[c]) for c in sorted(t)) for x in ss)
    want = law_of(st, t, constr, N or 1)
    if len(want) > 300:
        return
    if N == 2 and len(t) == 1:
        # the order within a batch of one column is not promised
        un = lambda d: dict((k, sum(p for o, p in d.items() if tuple(
            sorted(o)) == k)) for k in set(tuple(sorted(o)) for o in d))
        run2 = lambda rng: tuple(sorted(run(rng)))
        exactlaw.ensure_law(E, 'N samples are N joint draws', run2,
                            un(want), seed=3)
    else:
        un = lambda d: dict((k, sum(p for o, p in d.items() if tuple(
            sorted(o)) == k)) for k in set(tuple(sorted(o)) for o in d))
        run2 = lambda rng: tuple(sorted(run(rng)))
        exactlaw.ensure_law(E, 'N samples are N joint draws', run2,
                            un(want), seed=3)


@bounded('C12', 'simulate/observed', [S + '.simulate', SM + ':_simulate_row'],
         trials=40, bound='clusters 10^6 apart, normal columns, any views')
def _(E):
    st = St(E, types=('normal',), pnan=0., build=False)
    at = {}
    for c, h in zip(st.cols, st.hypers):
        v = st.Zv[c]
        h.update(m=-1e6, r=1e-6, s=1., nu=5.)
        at[c] = lambda k, j=st.cols.index(c): 1e6 * k + 1e5 * j
        st.X[c] = [at[c](z) + E.r.normal() for z in st.Zrv[v]]
    for v in st.valpha:
        st.valpha[v] = 1e-9
    s = st.build()
    r = int(E.r.randint(st.n))
    t = [c for c in st.cols if E.r.randint(2)] or st.cols[:1]
    N = E.choice('N', [None, 3])
    before = state_state(s)
    ss = s.simulate(r, list(t), None, None, N)
    for x in (ss if N else [ss]):
        E.ensure('an observed row is simulated within its clusters',
                 set(x) == set(t) and all(
                     abs(x[c] - at[c](st.Zrv[st.Zv[c]][r])) < 5e4
                     for c in t), (r, x))
    E.ensure('simulation changes nothing', same(before, state_state(s)))
    for x in s.simulate(-1, list(t), None, None, 5):
        for v in set(st.Zv[c] for c in t):
            cs = [c for c in t if st.Zv[c] == v]
            ks = [[k for k in set(st.Zrv[v])
                   if abs(x[c] - at[c](k)) < 5e4] for c in cs]
            E.ensure('columns of a view share the cluster',
                     len(ks[0]) == 1 and all(k == ks[0] for k in ks), x)
    a = st.cols[int(E.r.randint(len(st.cols)))]
    k = E.choice('k', sorted(set(st.Zrv[st.Zv[a]])))
    o = [c for c in st.cols if c != a and st.Zv[c] == st.Zv[a]]
    if o:
        x = s.simulate(-1, o, {a: at[a](k)})
        E.ensure('a constraint selects the cluster of its view',
                 all(abs(x[c] - at[c](k)) < 5e4 for c in o), x)


@bounded('C12', 'bulk', [S + '.simulate_bulk', S + '.logpdf_bulk'],
         trials=30, bound=BOUND)
def _(E):
    st = St(E)
    s = st.state
    qs = []
    for _ in range(int(E.r.randint(1, 4))):
        t, c = st.split()
        qs.append((-1, st.some_cells(t), st.some_cells(c)))
    E.ensure_eq('logpdf_bulk answers each query', list(s.logpdf_bulk(
        [q[0] for q in qs], [q[1] for q in qs], [q[2] for q in qs])),
        [st.conditional(q[1], q[2]) for q in qs])
    E.ensure_eq('logpdf_bulk without constraints', list(s.logpdf_bulk(
        [q[0] for q in qs], [q[1] for q in qs])),
        [st.conditional(q[1], {}) for q in qs])
    Ns = [int(E.r.randint(1, 4)) for _ in qs]
    out = s.simulate_bulk([q[0] for q in qs], [list(q[1]) for q in qs],
                          [q[2] for q in qs], None, Ns)
    E.ensure('simulate_bulk answers each query', len(out) == len(qs) and all(
        len(o) == n and all(set(x) == set(q[1]) for x in o)
        for o, q, n in zip(out, qs, Ns)), out)
    E.raises(ANY, lambda: s.logpdf_bulk([-1], [q[1] for q in qs] * 2),
             'lists of different lengths')


# --------------------------------------------------------------------------
# C13: bookkeeping.

def check_state(E, st, s, what):
    """s holds the table st.X (columns st.cols in this order), in consistent
    views."""
    n = 'after ' + what
    E.ensure(n + ': the columns', list(s.outputs) == list(st.cols)
             and all(s.has_output(c) for c in st.cols), s.outputs)
    E.ensure(n + ': the table', same(dict((c, list(x)) for c, x in
                                          s.X.items()), st.X), s.X)
    E.ensure(n + ': the number of rows and columns', s.n_rows() == st.n
             and s.n_cols() == len(st.cols))
    Zv = dict(s.Zv())
    E.ensure(n + ': every column has a view', set(Zv) == set(st.cols)
             and set(Zv.values()) == set(s.views), (Zv, list(s.views)))
    E.ensure_eq(n + ': the view sizes', dict(s.Nv()),
                exactlaw.sizes(Zv.values()))
    E.ensure(n + ': kinds', [d.cctype for d in s.dims()] == st.cctypes,
             [d.cctype for d in s.dims()])
    tot = 0.
    for v, w in s.views.items():
        cs = [c for c in st.cols if Zv[c] == v]
        Z = dict(w.Zr())
        E.ensure(n + ': a view holds every row', set(Z) == set(range(st.n)),
                 Z)
        js = dict((c, st.cols.index(c)) for c in cs)
        m = mixlib.mix_of(E, mixlib.ZBASE + v, cs,
                          [st.cctypes[js[c]] for c in cs],
                          [st.distargs[js[c]] for c in cs],
                          [dict(w.dims[c].hypers) for c in cs
                           if c in w.dims], w.alpha(), st.X,
                          [Z[i] for i in range(st.n)])
        views.check_view(E, m, w, Z, what)
        tot += m.lp_state(m.labels)
    lp = exactlaw.log_crp([Zv[c] for c in st.cols], s.alpha())
    E.ensure_eq(n + ': the score of the views', s.logpdf_likelihood()
                + sum(w.logpdf_prior() for w in s.views.values()), tot)
    if not s.Ci and not s.Cd:
        E.ensure_eq(n + ': the score of the partition',
                    s.logpdf_score_crp(), lp)
        E.ensure_eq(n + ': the score', s.logpdf_score(), lp + tot)


@bounded('C13', 'construct', [S + '.__init__'], trials=60, bound=BOUND)
def _(E):
    st = St(E)
    s = st.state
    check_state(E, st, s, 'construction')
    E.ensure_eq('the view partition', dict(s.Zv()), st.Zv)
    E.ensure_eq('alpha', s.alpha(), st.alpha)
    for v in st.Zrv:
        E.ensure_eq('the row partition', dict(s.views[v].Zr()),
                    dict(enumerate(st.Zrv[v])))
        E.ensure_eq('view alphas', s.views[v].alpha(), st.valpha[v])
    for c, h in zip(st.cols, st.hypers):
        E.ensure_eq('hypers', dict(s.dim_for(c).hypers), h)


@bounded('C13', 'construct/prior', [S + '.__init__'], trials=10,
         bound='up to 3 columns, 2 rows; the exact law by enumeration')
def _(E):
    st = St(E, n=int(E.r.randint(1, 3)), cols=int(E.r.randint(1, 4)),
            types=('bernoulli',), build=False, pnan=0.)

    def run(rng):
        s = E.get(S)(
            np.array([[float(st.X[c][i]) for c in st.cols]
                      for i in range(st.n)]), outputs=list(st.cols),
            cctypes=st.cctypes, alpha=st.alpha,
            hypers=[dict(h) for h in st.hypers], rng=rng,
            view_alphas=dict((v, .7) for v in range(5)))
        return (exactlaw.canon([s.Zv(c) for c in st.cols]),)
    want = dict(((p,), math.exp(exactlaw.log_crp(p, st.alpha)))
                for p in exactlaw.partitions(st.cols))
    exactlaw.ensure_law(E, 'columns are seated by the prior', run, want)


def _history(types, name):
    @bounded('C13', 'history/' + name, [
        S + '.incorporate', S + '.unincorporate', S + '.incorporate_dim',
        S + '.unincorporate_dim', S + '.force_cell', S + '.update_cctype',
        S + '._migrate_dim', S + '._append_view', S + '._delete_view',
        S + '.transition'], trials=100,
        bound='up to 7 operations, 5 columns, 8 rows')
    def _(E):
        st = St(E, types=types)
        s = st.state
        ops = ['row', 'row', 'pop', 'addcol', 'delcol', 'force', 'cctype',
               'kernel', 'columns', 'reject']
        log = []
        for _ in range(int(E.r.randint(1, 8))):
            op = ops[E.r.randint(len(ops))]
            log.append(op)
            E.note('ops', list(log))
            if op == 'row':
                obs = st.some_cells([c for c in st.cols if E.r.randint(3)])
                if not obs:
                    obs = st.some_cells(st.cols[:1])
                full = dict(obs)
                if E.r.randint(2):
                    v = E.choice('v', sorted(s.views))
                    k = E.choice('k', sorted(s.views[v].Nk()) + [
                        max(s.views[v].Nk()) + 1])
                    full[s.views[v].outputs[0]] = k
                else:
                    v = None
                s.incorporate(st.n, full)
                for c in st.cols:
                    st.X[c] = st.X[c] + [obs.get(c, mixlib.NAN)]
                st.n += 1
                if v is not None:
                    E.ensure_eq('the given cluster is used',
                                s.views[v].Zr(st.n - 1), k)
            elif op == 'pop' and st.n > 1:
                s.unincorporate(st.n - 1)
                st.n -= 1
                for c in st.cols:
                    st.X[c] = st.X[c][:-1]
            elif op == 'addcol' and len(st.cols) < 5:
                c = max(st.cols) + 1 + int(E.r.randint(3))
                t = types[E.r.randint(len(types))]
                da = mixlib.distargs(E, t)
                T = [mixlib.value(E, t, da) for _ in range(st.n)]
                v = E.choice('to', [None, 0, 25] + sorted(s.views))
                s.incorporate_dim(list(T), [c], cctype=t, distargs=da, v=v)
                st.cols = st.cols + [c]
                st.cctypes = st.cctypes + [t]
                st.distargs = st.distargs + [da]
                st.X[c] = T
                if v is not None:
                    E.ensure_eq('the given view is used', s.Zv(c), v)
            elif op == 'delcol' and len(st.cols) > 1:
                c = st.cols[E.r.randint(len(st.cols))]
                s.unincorporate_dim(c)
                j = st.cols.index(c)
                for l in (st.cols, st.cctypes, st.distargs):
                    l.pop(j)
                del st.X[c]
            elif op == 'force':
                r = int(E.r.randint(st.n))
                new = st.some_cells([c for c in st.cols
                                     if isnan(st.X[c][r])])
                s.force_cell(r, dict(new))
                for c in new:
                    st.X[c] = list(st.X[c])
                    st.X[c][r] = new[c]
            elif op == 'cctype':
                j = int(E.r.randint(len(st.cols)))
                if all(isnan(x) for x in st.X[st.cols[j]]):
                    continue       # a column has some value
                t = {'bernoulli': 'categorical', 'poisson': 'normal',
                     'geometric': 'poisson'}.get(st.cctypes[j], 'normal')
                da = {'k': 2} if t == 'categorical' else None
                s.update_cctype(st.cols[j], t, distargs=da)
                st.cctypes[j], st.distargs[j] = t, da
            elif op == 'kernel':
                k = E.choice('kernel', ['alpha', 'view_alphas', 'rows',
                                        'column_hypers', 'column_params'])
                s.transition(N=1, kernels=[k], progress=False)
            elif op == 'columns':
                s.transition(N=1, kernels=['columns'], progress=False)
            elif op == 'reject':
                reject(E, st, s)
            check_state(E, st, s, op)


def reject(E, st, s):
    x = st.some_cells(st.cols[:1])
    E.raises(VE, lambda: s.incorporate(st.n + 1, dict(x)),
             'only the next row is inserted')
    E.raises(VE, lambda: s.incorporate(0, dict(x)), 'a held row')
    E.raises(VE, lambda: s.incorporate(st.n, {st.cols[0]: mixlib.NAN}),
             'a missing value')
    E.raises(VE, lambda: s.incorporate(st.n, {10 ** 5: 0}),
             'an unknown column')
    E.raises(VE, lambda: s.incorporate(st.n, dict(x), {1: 2}), 'inputs')
    if st.n > 1:
        E.raises(VE, lambda: s.unincorporate(0), 'only the last row')
    else:
        E.raises(VE, lambda: s.unincorporate(0), 'the only row')
    if len(st.cols) == 1:
        E.raises(VE, lambda: s.unincorporate_dim(st.cols[0]), 'the only dim')
    E.raises(ANY, lambda: s.unincorporate_dim(10 ** 5), 'an unknown column')
    T = [0.] * st.n
    E.raises(VE, lambda: s.incorporate_dim(T + [0.], [77], cctype='normal'),
             'a column of the wrong length')
    E.raises(VE, lambda: s.incorporate_dim(T, [77, 78], cctype='normal'),
             'two outputs')
    E.raises(VE, lambda: s.incorporate_dim(T, [st.cols[0]], cctype='normal'),
             'a held column')
    E.raises(VE, lambda: s.incorporate_dim(T, [77], [st.cols[0]],
                                           cctype='normal'), 'inputs')
    E.raises(VE, lambda: s.force_cell(st.n, dict(x)), 'an unknown row')
    for r in range(st.n):
        if not isnan(st.X[st.cols[0]][r]):
            E.raises(VE, lambda: s.force_cell(r, dict(x)), 'a known cell')
            break


_history(mixlib.COLLAPSED, 'kinds')
_history(('bernoulli', 'normal'), 'two')


# --------------------------------------------------------------------------
# C14: Gibbs on columns.

def col_outcome(st, s, cols):
    """The column partition, and the row partition of every view."""
    Zv = [s.Zv(c) for c in cols]
    rows = []
    seen = []
    for v in Zv:
        if v not in seen:
            seen.append(v)
            w = s.views[v]
            rows.append(exactlaw.canon([w.Zr(i) for i in range(st.n)]))
    return exactlaw.canon(Zv), tuple(rows)


def col_law(E, st, c, m=1, Ci=()):
    """Full conditional of the view of column c with m auxiliary views drawn
    from the prior (Neal 2000, algorithm 8); the current view serves as one
    of them when c is alone in it."""
    import itertools
    cols, here = st.cols, st.Zv[c]
    j = cols.index(c)
    others = [x for x in cols if x != c]
    n_in = exactlaw.sizes(st.Zv[x] for x in others)
    single = here not in n_in

    def data(labels):
        mm = st.mix(here, labels=labels, cols=[c])
        return mm.lp_state(labels) - exactlaw.log_crp(labels, mm.alpha)
    banned = set(st.Zv[x] for p in Ci if c in p for x in p if x != c)
    fixed = {}
    for v in sorted(set(st.Zv.values())):
        if v in banned and v in n_in:
            continue
        w = math.log(n_in[v]) if v in n_in else math.log(st.alpha / m)
        fixed[v] = w + data(st.Zrv[v])
    grid = E.mod('cgpm.utils.general').log_linspace(1. / st.n, st.n, 30)
    parts = exactlaw.partitions(range(st.n))
    prior = dict((p, sum(math.exp(exactlaw.log_crp(p, float(a)))
                         for a in grid) / len(grid)) for p in parts)
    n_aux = m - 1 if single else m
    out = {}

    def outcome(v, aux):
        Zv = [st.Zv[x] if x != c else v for x in cols]
        rows, seen = [], []
        for u in Zv:
            if u not in seen:
                seen.append(u)
                rows.append(aux if u == 'new'
                            else exactlaw.canon(st.Zrv[u]))
        return exactlaw.canon(Zv), tuple(rows)
    for combo in itertools.product(parts, repeat=n_aux):
        p0 = 1.
        w = dict(fixed)
        for i, p in enumerate(combo):
            p0 *= prior[p]
            w['new', i] = math.log(st.alpha / m) + data(list(p))
        for k, p in exactlaw.lognorm(w).items():
            o = outcome('new', combo[k[1]]) if isinstance(k, tuple) \
                else outcome(k, None)
            out[o] = out.get(o, 0.) + p0 * p
    return out


@bounded('C14', 'conditional', [
    S + '._gibbs_transition_dim', S + '._dim_get_data_logp',
    S + '._dim_get_proposal', S + '._migrate_dim', S + '.transition_dims'],
    trials=40, bound='up to 3 rows, 4 columns; the exact law by enumeration '
    'of the draws')
def _(E):
    st = St(E, n=int(E.r.randint(1, 4)))
    c = st.cols[int(E.r.randint(len(st.cols)))]
    E.note('column', c)

    def run(rng):
        s = st.build(rng=rng)
        s.transition_dims(cols=[c])
        return col_outcome(st, s, st.cols)
    exactlaw.ensure_law(
        E, 'a column is moved by its full conditional', run,
        col_law(E, st, c), limit=20000, samples=1500)


@bounded('C14', 'conditional/auxiliary', [
    S + '._gibbs_transition_dim'], trials=6,
    bound='2 rows, 3 columns, 2 auxiliary views; the exact law')
def _(E):
    st = St(E, n=2, cols=int(E.r.randint(2, 4)))
    c = st.cols[int(E.r.randint(len(st.cols)))]
    E.note('column', c)

    def run(rng):
        s = st.build(rng=rng)
        s.transition_dims(cols=[c], m=2)
        return col_outcome(st, s, st.cols)
    exactlaw.ensure_law(
        E, 'a column is moved by its full conditional with m fresh views',
        run, col_law(E, st, c, m=2), limit=20000, samples=1500)


@bounded('C14', 'independence', [S + '._gibbs_transition_dim'], trials=20,
         bound='up to 3 rows, 4 columns, random pairs kept apart')
def _(E):
    m = int(E.r.randint(2, 5))
    st = St(E, n=int(E.r.randint(1, 3)), cols=m, views=m)
    pairs = [(a, b) for i, a in enumerate(st.cols) for b in st.cols[:i]
             if E.r.randint(2)] or [(st.cols[0], st.cols[1])]
    ok = lambda Zv: all(Zv[a] != Zv[b] for a, b in pairs)
    # an admissible partition
    for _ in range(30):
        ids = [int(i) for i in E.r.choice(20, size=m, replace=False)]
        Zv = dict((c, ids[E.r.randint(m)]) for c in st.cols)
        if ok(Zv):
            break
    else:
        return
    zr = list(st.Zrv.values())
    st.Zv = Zv
    st.Zrv = dict((v, zr[i]) for i, v in enumerate(sorted(set(Zv.values()))))
    st.valpha = dict((v, 1.3) for v in st.Zrv)
    st.kw = dict(Ci=[tuple(p) for p in pairs])
    E.note('apart', pairs)
    E.note('Zv', Zv)
    c = st.cols[int(E.r.randint(m))]

    def run(rng):
        s = st.build(rng=rng)
        s.transition_dims(cols=[c])
        Z = dict(s.Zv())
        assert ok(Z), 'constraint violated: %r' % (Z,)
        return col_outcome(st, s, st.cols)
    exactlaw.ensure_law(
        E, 'the conditional given that constrained columns stay apart', run,
        col_law(E, st, c, Ci=pairs), limit=20000, samples=1500)
    s = st.build()
    for _ in range(5):
        s.transition(N=1, kernels=['columns', 'rows'], progress=False)
        E.ensure('no sweep joins columns kept apart', ok(dict(s.Zv())))


@bounded('C14', 'reject', [S + '._gibbs_transition_dim'], trials=5,
         bound='2 columns')
def _(E):
    st = St(E, cols=2, views=1, ids=[0], build=False)
    st.kw = dict(Cd=[tuple(st.cols)])
    s = st.build()
    E.raises(VE, lambda: s.transition_dims(),
             'dependence constraints need another kernel')


@bounded('C14', 'invariant', [S + '.transition_dims'], trials=40,
         bound='5 columns of 10 kinds, 5 rows')
def _(E):
    """Uncollapsed columns included."""
    st = St(E, types=mixlib.COLLAPSED + ('beta',), pnan=.1)
    s = st.state
    for _ in range(3):
        s.transition(N=1, kernels=['columns'], progress=False)
        Zv = dict(s.Zv())
        E.ensure('a partition of the columns', set(Zv) == set(st.cols)
                 and set(s.views) == set(Zv.values()))
        for c in st.cols:
            w = s.views[Zv[c]]
            d = w.dims[c]
            Z = dict(w.Zr())
            E.ensure('the clusters of a column follow its view',
                     dict(d.Zr) == dict((r, z) for r, z in Z.items()
                                        if not isnan(st.X[c][r]))
                     and set(d.Zr.values()) <= set(d.clusters)
                     and set(d.clusters) <= set(Z.values()), (Z, d.Zr))
            for k, o in d.clusters.items():
                E.ensure_eq('a cluster holds its rows', dict(o.data), dict(
                    (r, st.X[c][r]) for r, z in d.Zr.items()
                    if z == k)) if hasattr(o, 'data') and isinstance(
                    o.data, dict) else None


# --------------------------------------------------------------------------
# C15: schedules of kernels.

KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
           'columns']


def parts(s):
    """The pieces of a state that a kernel may change."""
    out = {'alpha': s.alpha(), 'Zv': dict(s.Zv())}
    for c in s.outputs:
        out['hypers', c] = dict(s.dim_for(c).hypers)
        out['zv', c] = s.Zv(c)
    for v, w in s.views.items():
        out['valpha', v] = w.alpha()
        for r, z in w.Zr().items():
            out['zr', v, r] = z
    return out


def changed(a, b):
    return set(k for k in set(a) | set(b)
               if k not in a or k not in b or not same(a[k], b[k]))


@bounded('C15', 'frames', [
    S + '.transition', S + '.transition_crp_alpha',
    S + '.transition_view_alphas', S + '.transition_dim_hypers',
    S + '.transition_dim_params', S + '.transition_view_rows',
    S + '.transition_dims'], trials=120, bound=BOUND)
def _(E):
    st = St(E)
    s = st.state
    k = E.choice('kernel', KERNELS)
    cols = E.choice('cols', [None, 'some'])
    if cols:
        cols = [c for c in st.cols if E.r.randint(2)] or [st.cols[0]]
    rows = None
    if k == 'rows' and E.r.randint(2):
        rows = [r for r in range(st.n) if E.r.randint(2)] or [0]
    vs = None
    if k in ('rows', 'view_alphas') and E.r.randint(3) == 0:
        vs = [v for v in s.views if E.r.randint(2)] or list(s.views)[:1]
    E.note('call', (k, cols, rows, vs))
    a = parts(s)
    X = dict((c, list(x)) for c, x in s.X.items())
    s.transition(N=int(E.r.randint(1, 3)), kernels=[k], cols=cols,
                 rowids=rows, views=vs, progress=False)
    ch = changed(a, parts(s))
    some = st.cols if cols is None else cols
    on = set(vs) if vs is not None else set(
        st.Zv[c] for c in some)
    allowed = {
        'alpha': lambda p: p == 'alpha',
        'view_alphas': lambda p: p[0] == 'valpha' and p[1] in on,
        'column_params': lambda p: False,
        'column_hypers': lambda p: p[0] == 'hypers' and p[1] in some,
        'rows': lambda p: p[0] == 'zr' and p[1] in on and (
            rows is None or p[2] in rows),
        'columns': lambda p: p == 'Zv' or p[0] == 'zv' and p[1] in some
        or p[0] in ('valpha', 'zr')}[k]
    E.ensure('a kernel touches its own part of the state only',
             all(allowed(p) for p in ch), sorted(map(repr, ch)))
    E.ensure('no kernel touches the table', same(X, dict(
        (c, list(x)) for c, x in s.X.items())))
    st.hypers = [dict(s.dim_for(c).hypers) for c in st.cols]
    check_state(E, st, s, 'a transition')


@bounded('C15', 'counts', [S + '._transition_generic',
                           S + '._increment_iterations',
                           S + '._increment_diagnostics'], trials=60,
         bound='up to 5 iterations of up to 6 kernels')
def _(E):
    st = St(E, n=int(E.r.randint(2, 5)), cols=2)
    s = st.state
    ks = [k for k in KERNELS if E.r.randint(2)] or ['alpha']
    N = int(E.r.randint(1, 6))
    ck = E.choice('checkpoint', [None, 1, 2, 3])
    E.note('call', (ks, N, ck))
    s.transition(N=N, kernels=list(ks), progress=False, checkpoint=ck)
    it = s.diagnostics['iterations']
    E.ensure_eq('every kernel runs N times', dict(
        (k, it.get(k, 0)) for k in KERNELS), dict(
        (k, N if k in ks else 0) for k in KERNELS))
    n = N // ck if ck else 0
    for d in ('logscore', 'column_crp_alpha', 'column_partition'):
        E.ensure_eq('a checkpoint every so many iterations',
                    len(s.diagnostics[d]), n)
    if n and N % ck == 0:
        E.ensure_eq('the score is recorded', s.diagnostics['logscore'][-1],
                    s.logpdf_score())
        E.ensure_eq('alpha is recorded',
                    s.diagnostics['column_crp_alpha'][-1], s.alpha())
        E.ensure_eq('the partition is recorded', dict(
            s.diagnostics['column_partition'][-1]), dict(s.Zv()))
    s.transition(progress=False)
    it = s.diagnostics['iterations']
    E.ensure_eq('by default every kernel runs once more', dict(
        (k, it.get(k, 0)) for k in KERNELS), dict(
        (k, (N if k in ks else 0) + 1) for k in KERNELS))
    E.raises(VE, lambda: s.transition(cols=[st.cols[0], 10 ** 6],
                                      progress=False), 'an unknown column')


@bounded('C15', 'clock', [S + '._transition_generic'], trials=40,
         bound='a scripted clock')
def _(E):
    st = St(E, n=1, cols=1)
    s = st.state
    S_ = E.choice('S', [3, 7.5, 20])
    N = E.choice('N', [None, 2, 50])
    step = E.choice('step', [.4, 1., 2.5])
    now = [100.]
    log = []
    E.patch('time:time', lambda: now[0])

    def kernel(name):
        def f():
            log.append((name, now[0] - 100.))
            now[0] += step
        return f
    ks = ['a', 'b', 'c'][:int(E.r.randint(1, 4))]
    s._transition_generic([kernel(k) for k in ks], N=N, S=S_,
                          progress=False)
    E.ensure('kernels run in order', [k for k, _ in log] == [
        ks[i % len(ks)] for i in range(len(log))], log)
    E.ensure('no kernel starts after the time is up', all(
        t < S_ for _, t in log), log)
    full = len(log) // len(ks)
    E.ensure('it stops for one of the two reasons', now[0] - 100. >= S_
             or N is not None and full >= N, (log, N, S_))
    E.ensure('at most N iterations', N is None or len(log) <= N * len(ks),
             log)


@bounded('C15', 'foreign', [S + '.transition_foreign'], trials=30,
         bound='up to 3 composed models')
def _(E):
    st = St(E, cols=2)
    s = st.state
    log = []

    class Foreign(object):
        def __init__(self, o):
            self.outputs, self.inputs = [o], [st.cols[0]]

        def transition(self, **k):
            log.append(self.outputs[0])
    outs = [100, 101, 102][:int(E.r.randint(1, 4))]
    tok = dict((o, s.compose_cgpm(Foreign(o))) for o in outs)
    E.ensure('tokens are distinct', len(set(tok.values())) == len(outs))
    cols = [o for o in outs if E.r.randint(2)] or None
    N = int(E.r.randint(1, 4))
    s.transition_foreign(N=N, cols=cols, progress=False)
    some = outs if cols is None else cols
    E.ensure_eq('the models asked for make N transitions each',
                exactlaw.sizes(log), dict((o, N) for o in some))
    it = s.diagnostics['iterations']
    E.ensure_eq('iterations are counted', dict(
        (o, it.get('foreign-%s' % (tok[o],), 0)) for o in outs), dict(
        (o, N if o in some else 0) for o in outs))
    E.raises(VE, lambda: s.transition_foreign(
        cols=[st.cols[0]], progress=False), 'a column of the state')


# --------------------------------------------------------------------------
# C16: structure summaries.

@bounded('C16', 'dependence', [S + '.dependence_probability',
                               S + '.dependence_probability_pairwise'],
         trials=60, bound=BOUND)
def _(E):
    st = St(E)
    s = st.state
    for a in st.cols:
        for b in st.cols:
            E.ensure_eq('dependent exactly when in the same view',
                        s.dependence_probability(a, b),
                        float(st.Zv[a] == st.Zv[b]))
    some = [c for c in st.cols if E.r.randint(2)]
    for cs in (None, some):
        D = s.dependence_probability_pairwise(cs)
        cs = st.cols if cs is None else cs
        E.ensure_eq('the matrix of pairs', [list(x) for x in D], [
            [float(st.Zv[a] == st.Zv[b]) for b in cs] for a in cs])


@bounded('C16', 'similarity', [S + '.row_similarity',
                               S + '.row_similarity_pairwise'], trials=60,
         bound=BOUND)
def _(E):
    st = St(E)
    s = st.state
    some = [c for c in st.cols if E.r.randint(2)] or st.cols[:1]
    for cs in (None, some):
        vs = set(st.Zv[c] for c in (st.cols if cs is None else cs))
        want = [[sum(st.Zrv[v][i] == st.Zrv[v][j] for v in vs)
                 / float(len(vs)) for j in range(st.n)]
                for i in range(st.n)]
        for i in range(st.n):
            for j in range(st.n):
                E.ensure_eq('the fraction of views where the rows share a '
                            'cluster', float(s.row_similarity(i, j, cs)),
                            want[i][j])
        E.ensure_eq('the matrix of rows', [
            [float(y) for y in x] for x in s.row_similarity_pairwise(cs)],
            want)


@bounded('C16', 'dependence/composite', [
    S + '._dependence_probability_composite'], trials=80,
    bound='up to 3 columns and 4 composed models in any acyclic wiring')
def _(E):
    st = St(E, cols=int(E.r.randint(1, 4)))
    s = st.state

    class Foreign(object):
        def __init__(self, o, i):
            self.outputs, self.inputs = list(o), list(i)
    par = {}
    known = list(st.cols)
    nxt = 100
    for _ in range(int(E.r.randint(1, 5))):
        o = [nxt, nxt + 1][:int(E.r.randint(1, 3))]
        nxt += 2
        i = [c for c in known if E.r.randint(2)]
        s.compose_cgpm(Foreign(o, i))
        for x in o:
            par[x] = (tuple(o), i)
        known += o
    E.note('wiring', par)

    def block(c):
        return ('v', st.Zv[c]) if c in st.Zv else par[c][0]

    def up(c):
        """Blocks of c and of its ancestors."""
        out = set([block(c)])
        if c not in st.Zv:
            for p in par[c][1]:
                out |= up(p)
        return out

    for a in known:
        for b in known:
            got = s.dependence_probability(a, b)
            E.ensure('zero or one', got in (0., 1.), got)
            E.ensure('symmetric', got == s.dependence_probability(b, a),
                     (a, b))
            E.ensure_eq('dependent exactly with a common ancestral model',
                        got, float(bool(up(a) & up(b))))


@bounded('C16', 'relevance', [S + '.relevance_probability'], trials=60,
         bound=BOUND)
def _(E):
    st = St(E, n=int(E.r.randint(2, 6)))
    s = st.state
    c = st.cols[int(E.r.randint(len(st.cols)))]
    Z = st.Zrv[st.Zv[c]]
    t = int(E.r.randint(st.n))
    q = [r for r in range(st.n) if E.r.randint(2)]
    before = state_state(s)
    E.ensure_eq('one exactly when the target shares the cluster of every '
                'query row', s.relevance_probability(t, list(q), c),
                int(bool(q) and all(Z[r] == Z[t] for r in q)))
    E.ensure('the query changes nothing', same(before, state_state(s)))
    hyp = [st.some_cells([x for x in st.cols if E.r.randint(2)])
           for _ in range(int(E.r.randint(1, 3)))]
    p = s.relevance_probability(t, list(q), c, hyp)
    E.ensure('zero or one', p in (0, 1), p)
    if q and not all(Z[r] == Z[t] for r in q):
        E.ensure_eq('a query row elsewhere excludes it', p, 0)
    E.ensure('hypothetical rows are forgotten',
             same(before, state_state(s)))
