"""C14: Gibbs sampling of the views of columns; C15: the kernels of a state;
proved over the contracts of the views and of the columns."""
from vf import sym
from vf.spec import unit, Stub
from specs.contracts import draw_contracts
from specs.statestubs import S, BASE, CRP, NAN, StateWorld, StubDim, StubView

VE = (ValueError,)


class Column(StubDim):
    """A column, collapsed or not; a copy of it is another object."""
    copies = 0

    def __init__(self, W, c, collapsed, copied=False):
        StubDim.__init__(self, W, c)
        self.collapsed, self.copied = collapsed, copied

    def is_collapsed(self):
        return self.collapsed

    def __deepcopy__(self, memo):
        return Column(self.W, self.c, self.collapsed, True)


def mover(E, collapsed, lo=1):
    W = StateWorld(E, lo=lo)
    W.dim = lambda c: Column(W, c, collapsed)
    return W


@unit('C14', 'data', [S + '._dim_get_data_logp', S + '._dim_is_member'],
      trials=30)
def _(E):
    """The marginal density of the column under the rows of a view; the
    column is in no view afterwards."""
    collapsed = E.flag('collapsed')
    W = mover(E, collapsed)
    view = W.views[E.pick('v', W.views)]
    c = E.pick('c', W.Zv)
    dim = Column(W, c, collapsed)
    score = E.real('score')
    log = []

    def add(view, dim, reassign):
        log.append(('add', view, dim, reassign))
        return score

    def remove(view, dim):
        log.append(('remove', view, dim))
        return E.real('other')
    W.on_incorporate_dim, W.on_unincorporate_dim = add, remove
    E.ensure_eq('the density of the column in the view',
                W.st._dim_get_data_logp(view, dim), score)
    E.ensure('the column enters the view and leaves it again',
             [l[0] for l in log] == ['add', 'remove'])
    E.ensure('the view and the column', all(
        l[1] is view and l[2] is dim for l in log))
    E.ensure('the rows of the column are those of the view, unless an '
             'uncollapsed column is at home', bool(log[0][3]) == (
                 collapsed or not E.truth(W.z(c) == view.v)))


@unit('C14', 'proposal', [S + '._dim_get_proposal', S + '._dim_is_member'],
      trials=30)
def _(E):
    """An uncollapsed column is copied before it is tried elsewhere."""
    collapsed = E.flag('collapsed')
    W = mover(E, collapsed)
    new = E.flag('new view')
    view = None if new else W.views[E.pick('v', W.views)]
    c = E.pick('c', W.Zv)
    dim = Column(W, c, collapsed)
    got = W.st._dim_get_proposal(view, dim)
    if collapsed or (not new and W.z(c) == view.v):
        E.ensure('the column itself', got is dim)
    else:
        E.ensure('a copy', got is not dim and isinstance(got, Column) and
                 got.copied)


for _m in (1, 2):
    for _naux in (_m - 1, _m):
        @unit('C14', 'step/%d of %d' % (_naux, _m),
              [S + '._gibbs_transition_dim'], trials=40)
        def _(E, m=_m, naux=_naux):
            """A column moves to a view with probability proportional to the
            seating weight times its density under the rows of the view."""
            draw_contracts(E)
            W = mover(E, False)
            st = W.st
            st.rng = E.rng()
            col = E.pick('col', W.Zv)
            n = E.length(W.views)
            key = E.func('key', sort='int')
            if not E.symbolic:
                order = sorted(W.views)
                key = lambda i: order[i]
            keys = E.table('views', n, key)
            E.assume_below(n, lambda i: E.has(W.views, key(i)))
            t = E.int('t', lo=0)
            E.assume_each(W.views, lambda v: v < t)
            aux = [t + i for i in range(naux)]
            prior, like = E.func('prior'), E.func('like')
            K = keys + aux
            lp = E.table('lp', n, prior) + [prior(-1 - i)
                                            for i in range(naux)]

            class Tables(Stub):
                def __init__(self, real):
                    self.data, self.counts = real.data, real.counts

                def gibbs_tables(self, rowid, m=1):
                    E.ensure_eq('the tables for the column', rowid, col)
                    E.ensure_eq('the auxiliary tables', m, M)
                    return K

                def gibbs_logps(self, rowid, m=1):
                    E.ensure_eq('the tables for the column', rowid, col)
                    E.ensure_eq('the auxiliary tables', m, M)
                    return lp
            M = m
            real = st.crp.clusters[0]
            st.crp = Stub()
            st.crp.clusters = {0: Tables(real)}
            made = []

            class NewView(StubView):
                def __init__(self, X, outputs=None, inputs=None, Zr=None,
                             alpha=None, cctypes=None, distargs=None,
                             hypers=None, rng=None):
                    E.ensure('a new view is over the table', X is st.X)
                    E.ensure('a new view draws from the generator of the '
                             'state', rng is st.rng)
                    E.ensure('the rows of a new view are drawn anew',
                             not (Zr or inputs or cctypes or hypers) and
                             alpha is None)
                    E.ensure('a new view is empty', len(outputs) == 1)
                    self.W, self.v = W, outputs[0] - BASE
                    self.outputs, self.dims = outputs, {}
                    made.append(self)
            E.patch('cgpm.crosscat.state:View', NewView)

            class Proposal(Stub):
                def __init__(self, v):
                    self.v, self.index = v, col

                def is_collapsed(self):
                    return False

                def _vf_subst(self, pairs):
                    from vf import coll
                    return Proposal(coll.subst(self.v, pairs))

            def proposal(view, dim):
                E.ensure_eq('the column', dim.index, col)
                return Proposal(-1 if view is None else view.v)
            E.replace(st, '_dim_get_proposal', proposal)

            def data(view, dim):
                new = [i for i in range(len(made)) if made[i] is view]
                if new:
                    E.ensure_eq('a copy of the column is tried in a new '
                                'view', dim.v, -1)
                    return like(-1 - new[0])
                E.ensure_eq('the column is tried in each view', dim.v,
                            view.v)
                return like(view.v)
            E.replace(st, '_dim_get_data_logp', data)
            log = []
            E.replace(st, '_append_view', lambda view, identity: log.append(
                ('append', view, identity)))
            E.replace(st, '_migrate_dim', lambda v_a, v_b, dim, reassign:
                      log.append(('migrate', v_a, v_b, dim, reassign)))
            W.on_incorporate_dim = lambda view, dim, reassign: log.append(
                ('add', view, dim, reassign))
            st._gibbs_transition_dim(col, m)
            E.ensure('the auxiliary views are made', len(made) == naux)
            for v, k in zip(made, aux):
                E.ensure_eq('an auxiliary view is named as its table', v.v, k)

            def weight(i):
                if i < n:
                    return prior(i) + like(key(i))
                return sum(E.If(i == n + j, prior(-1 - j) + like(-1 - j), 0.)
                           for j in range(naux)) if E.symbolic else \
                    prior(-1 - (i - n)) + like(-1 - (i - n))
            if not st.rng.draws:
                E.ensure_eq('the only view is chosen', n + naux, 1)
                i = 0
            else:
                E.ensure('one draw', len(st.rng.draws) == 1)
                E.same_law('the view of the column', st.rng.draws[0],
                           E.indices(n + naux), weight)
                i = E.scalar(st.rng.draws[0][2])
            target = K[i]
            old = W.z(col)
            if target == old:
                E.ensure('the column stays', [l[0] for l in log] == ['add'])
                E.ensure_eq('it is put back', log[0][1].v, old)
                E.ensure_eq('the column at home is put back', log[0][2].v,
                            old)
                E.ensure('with its clusters, unless it is collapsed',
                         not log[0][3])
            elif i < n:
                E.ensure('the column moves', [l[0] for l in log] == [
                    'migrate'])
                E.ensure_eq('from its view', log[0][1], old)
                E.ensure_eq('to the drawn view', log[0][2], target)
                E.ensure_eq('as it was tried', log[0][3].v, target)
            else:
                E.ensure('a new view is appended, then the column moves',
                         [l[0] for l in log] == ['append', 'migrate'])
                E.ensure_eq('the drawn one', log[0][1].v, target)
                E.ensure_eq('under its name', log[0][2], target)
                E.ensure_eq('from its view', log[1][1], old)
                E.ensure_eq('to the drawn view', log[1][2], target)
                E.ensure_eq('as it was tried', log[1][3].v, -1)


@unit('C14', 'migrate', [S + '._migrate_dim', S + '._delete_view'],
      trials=40)
def _(E):
    """The column leaves its view, enters the other, and the partition
    follows; a view without columns is removed."""
    collapsed = E.flag('collapsed')
    W = mover(E, collapsed)
    st = W.st
    col = E.pick('col', W.Zv)
    a = W.z(col)
    home = E.flag('member')
    if home:
        dim = W.views[a].dims[col]
    else:
        # a copy, or a column that has left its view
        dim = Column(W, col, collapsed, True)
        W.views[a].dims = E.submap(
            W.Zv, lambda c: E.And(W.z(c) == a, c != col),
            lambda c: W.dim(c))
    b = E.pick('b', W.views)
    E.assume(a != b)
    reassign = E.choice('reassign', [None, True, False])
    log = []
    W.on_incorporate_dim = lambda view, dim, reassign: log.append(
        ('add', view, dim, reassign))
    W.on_unincorporate_dim = lambda view, dim: log.append(
        ('remove', view, dim))
    na, nb, n = st.Nv(a), st.Nv(b), E.length(st.Zv())
    views = E.length(st.views)
    va, vb = st.views[a], st.views[b]
    st._migrate_dim(a, b, dim, reassign)
    E.ensure('the column leaves its view and enters the other',
             [l[0] for l in log] == (['remove'] if home else []) + ['add'])
    if home:
        E.ensure('it leaves its view', log[0][1] is va and
                 log[0][2] is dim)
    E.ensure('it enters the other', log[-1][1] is vb and log[-1][2] is dim)
    E.ensure('its rows are those of the new view', bool(log[-1][3]) == (
        collapsed if reassign is None else reassign))
    E.ensure_eq('the partition follows', st.Zv(col), b)
    E.ensure_eq('no column is lost', E.length(st.Zv()), n)
    E.ensure_eq('the other view grows', st.Nv(b), nb + 1)
    if na == 1:
        E.ensure('an empty view is removed', a not in st.views and
                 a not in st.Nv())
        E.ensure_eq('only that', E.length(st.views), views - 1)
    else:
        E.ensure_eq('the view shrinks', st.Nv(a), na - 1)
        E.ensure_eq('no view is removed', E.length(st.views), views)
        E.ensure('no view is replaced', st.views[a] is va)
    E.ensure('no view is replaced', st.views[b] is vb)


# --------------------------------------------------------------------------
# C15: schedules.

for _k in (0, 1, 2, 3):
    @unit('C15', 'schedule/%d kernels' % _k, [S + '._transition_generic'],
          trials=60)
    def _(E, k=_k):
        """Whole iterations of the kernels in order, N of them or until the
        time is up; diagnostics at the checkpoints."""
        st = E.bare(E.get(S))
        mode = E.choice('mode', ['N', 'S', 'both', 'default'])
        N = E.int('N', lo=1) if mode in ('N', 'both') else None
        T = E.real('S', lo=0) if mode in ('S', 'both') else None
        ck = E.int('checkpoint', lo=1) if E.flag('checkpoints') else None
        log, clock = [], []

        def time():
            t = E.real('tick', lo=0, lo_open=False)
            if not E.symbolic:
                t = max(t, .3)
            clock.append(t if not clock else clock[-1] + t)
            return clock[-1]

        def gone():
            return clock[-1] - clock[0]

        class Clock(object):
            pass
        Clock.time = staticmethod(time)
        E.patch('cgpm.crosscat.state:time', Clock)

        def kernel(i):
            def f():
                if T is not None:
                    E.ensure('no kernel starts after the time is up',
                             gone() < T)
                log.append(i)
            return f
        E.replace(st, '_increment_diagnostics', lambda: log.append('diag'))

        def havoc(m):
            if clock:
                clock.append(clock[0] + E.real('elapsed', lo=0,
                                               lo_open=False))

        def a_round(m):
            return list(range(k)) + (
                ['diag'] if ck is not None and E.truth((m + 1) % ck == 0)
                else [])
        most = 1 if mode == 'default' else N
        R = E.rounds(log, a_round, havoc,
                     lambda m: True if most is None else m <= most)
        st._transition_generic([kernel(i) for i in range(k)], N=N, S=T,
                               progress=False, checkpoint=ck)
        m, rest = R.done()
        if k == 0:
            E.ensure('no kernels, nothing happens', rest == [])
            return
        E.ensure('the kernels run in order', rest == list(range(len(rest)))
                 and len(rest) < k)
        if mode in ('N', 'default'):
            E.ensure_eq('the number of iterations', m, 1 if N is None else N)
            E.ensure('whole iterations', rest == [])
        elif mode == 'S':
            E.ensure('it stops when the time is up', gone() >= T)
        else:
            E.ensure('never more iterations', m <= N)
            E.ensure('it stops for one of the reasons', E.Or(
                gone() >= T, E.And(E.eq(m, N), rest == [])))


COUNTS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
          'columns', 'column_grids']


def kernels(E, lo=1):
    W = StateWorld(E, lo=lo)
    st = W.st
    E.events = []
    W.before = dict((k, E.int('n_' + k, lo=0)) for k in COUNTS
                    if k != 'rows' or E.flag('rows counted'))
    st.diagnostics = {'iterations': dict(W.before)}
    E.replace(st.crp, 'transition_hypers', lambda: E.event('crp', 0))

    def step(col, m):
        E.event('step', col, m)
    E.replace(st, '_gibbs_transition_dim', step)
    return W


def counted(E, W, name, n=1):
    it = W.st.diagnostics['iterations']
    for k in COUNTS:
        if k in it or k in W.before or k == name:
            E.ensure_eq('iterations of each kernel', it.get(k, 0),
                        W.before.get(k, 0) + (n if k == name else 0))


def only(E, *kinds):
    E.ensure('no other kernel', all(e[0] in kinds for e in E.events),
             [e[0] for e in E.events])


@unit('C15', 'kernels/alpha', [S + '.transition_crp_alpha',
                               S + '._increment_iterations'], trials=20)
def _(E):
    W = kernels(E)
    W.st.transition_crp_alpha()
    E.ensure('the concentration of the columns, once',
             [e[0] for e in E.events] == ['crp'])
    counted(E, W, 'alpha')


PER_VIEW = {'view_alphas': ('transition_view_alphas', 'alpha'),
            'rows': ('transition_view_rows', 'rows')}
PER_COL = {'column_params': ('transition_dim_params', 'params'),
           'column_hypers': ('transition_dim_hypers', 'hypers'),
           'column_grids': ('transition_dim_grids', 'grids'),
           'columns': ('transition_dims', 'step')}

for _k in sorted(PER_VIEW):
    @unit('C15', 'kernels/%s' % _k, [S + '.' + PER_VIEW[_k][0],
                                     S + '._increment_iterations'],
          trials=30)
    def _(E, k=_k):
        """Every view, or the views of the chosen columns, or the chosen
        views, once each."""
        W = kernels(E)
        st = W.st
        name, kind = PER_VIEW[k]
        args = {}
        rows = E.choice('rows', [None, [3, 4]]) if k == 'rows' else None
        if rows is not None:
            args['rows'] = rows
        how = E.choice('how', ['all', 'columns', 'views', 'many views'])
        some = []
        if how == 'columns':
            cols = [E.pick('a', W.Zv)]
            if E.flag('two'):
                cols.append(E.pick('b', W.Zv))
            args['cols'] = cols
            some = [W.z(c) for c in cols]
            if len(some) > 1 and E.truth(some[0] == some[1]):
                some = some[:1]
        elif how == 'views':
            some = [E.pick('v', W.views)]
            args['views'] = list(some)
        elif how == 'many views':
            if E.symbolic:
                vs = E.map('vs', lambda v: 1)
                E.assume_each(vs, lambda v: E.has(W.views, v))
                args['views'] = vs.keys()
            else:
                vs = dict((v, 1) for v in sorted(W.views)[:2])
                args['views'] = list(vs)
        if k == 'rows' and not E.symbolic and W.n == 1 and E.flag('one'):
            W.n = 2
        getattr(st, name)(**args)
        if k == 'rows' and W.n == 1:
            E.ensure('one row does not move', not E.events)
            counted(E, W, None)
            return
        only(E, kind)
        counted(E, W, k)
        check = lambda v, p: p == rows
        if how == 'all':
            E.ensure_each('every view, once', W.views, kind, check)
        elif how == 'many views':
            E.ensure_each('exactly the chosen views, once', vs, kind, check)
        else:
            E.ensure('exactly as many views', len(E.events) == len(some))
            for v in some:
                E.ensure('the chosen views', E.Or(*[
                    e[1] == v for e in E.events]))
            E.ensure('the chosen rows', all(e[2] == rows for e in E.events))


for _k in sorted(PER_COL):
    @unit('C15', 'kernels/%s' % _k, [S + '.' + PER_COL[_k][0],
                                     S + '._increment_iterations'],
          trials=30)
    def _(E, k=_k):
        """Every column, or the chosen columns, once each."""
        W = kernels(E)
        st = W.st
        name, kind = PER_COL[k]
        args = {}
        m = 1
        if k == 'columns' and E.flag('auxiliary'):
            m = args['m'] = E.int('m', lo=1)
        how = E.choice('how', ['all', 'one', 'some'])
        if how == 'one':
            c = E.pick('c', W.Zv)
            args['cols'] = [c]
        elif how == 'some':
            if E.symbolic:
                cols = E.map('chosen', lambda v: 1)
                E.assume_each(cols, lambda v: E.has(W.Zv, v))
                args['cols'] = cols.keys()
            else:
                cols = dict((c, 1) for c in sorted(W.Zv)[:2])
                args['cols'] = list(cols)
        getattr(st, name)(**args)
        only(E, kind)
        counted(E, W, k)
        check = lambda c, p: E.eq(p, m if kind == 'step' else p)
        if how == 'all':
            E.ensure_each('every column, once', W.Zv, kind, check)
        elif how == 'some':
            E.ensure_each('exactly the chosen columns, once', cols, kind,
                          check)
        else:
            E.ensure('one column', len(E.events) == 1)
            E.ensure_eq('the chosen one', E.events[0][1], c)
            E.ensure('as often as asked', check(c, E.events[0][2]))


@unit('C15', 'dispatch', [S + '.transition'], trials=60)
def _(E):
    """transition runs the chosen kernels, by default all of them in order,
    on the chosen parts."""
    W = StateWorld(E)
    st = W.st
    log = []
    rows, views = Stub(), Stub()
    cols = E.choice('cols', [None, 'some'])
    if cols:
        cols = [E.pick('c', W.Zv)]
    want = {'alpha': ('transition_crp_alpha', {}),
            'view_alphas': ('transition_view_alphas',
                            {'views': views, 'cols': cols}),
            'column_params': ('transition_dim_params', {'cols': cols}),
            'column_hypers': ('transition_dim_hypers', {'cols': cols}),
            'rows': ('transition_view_rows', {
                'views': views, 'cols': cols, 'rows': rows}),
            'columns': ('transition_dims', {'cols': cols})}
    names = ['alpha', 'view_alphas', 'column_params', 'column_hypers',
             'rows', 'columns']

    E.replace(st, 'transition_crp_alpha', lambda: log.append(('alpha', {})))
    E.replace(st, 'transition_view_alphas', lambda views, cols: log.append(
        ('view_alphas', {'views': views, 'cols': cols})))
    E.replace(st, 'transition_dim_params', lambda cols: log.append(
        ('column_params', {'cols': cols})))
    E.replace(st, 'transition_dim_hypers', lambda cols: log.append(
        ('column_hypers', {'cols': cols})))
    E.replace(st, 'transition_view_rows', lambda views, rows, cols:
              log.append(('rows', {'views': views, 'cols': cols,
                                   'rows': rows})))
    E.replace(st, 'transition_dims', lambda cols, m: log.append(
        ('columns', {'cols': cols})))
    ks = E.choice('kernels', [None] + [[k] for k in names] + [
        ['columns', 'alpha'], ['rows', 'rows'],
        ['column_hypers', 'view_alphas', 'rows']])
    N = E.choice('N', [None, 1, 2])
    st.transition(N=N, kernels=ks, cols=cols, views=views, rowids=rows,
                  progress=False)
    run = (names if ks is None else ks) * (N or 1)
    E.ensure('the chosen kernels in order', [l[0] for l in log] == run)
    for k, args in log:
        for a, v in want[k][1].items():
            E.ensure('on the chosen ' + a, args[a] is v)


@unit('C15', 'dispatch/unknown column', [S + '.transition'], trials=20)
def _(E):
    W = kernels(E)
    c = E.int('c')
    E.assume(E.Not(E.has(W.Zv, c)))
    cols = [c] if E.flag('alone') else [E.pick('d', W.Zv), c]
    E.raises(VE, lambda: W.st.transition(cols=cols, progress=False),
             'a column the state does not have')
    E.ensure('nothing has run', not E.events)


@unit('C15', 'diagnostics', [S + '._increment_diagnostics'], trials=20)
def _(E):
    W = StateWorld(E)
    st = W.st
    old = [E.real('old')]
    score = E.real('score')
    st.diagnostics = {'logscore': list(old), 'column_crp_alpha': [1.],
                      'column_partition': ['p']}
    E.replace(st, 'logpdf_score', lambda: score)
    st._increment_diagnostics()
    d = st.diagnostics
    E.ensure('one entry is added to each series', all(
        len(d[k]) == 2 for k in d) and len(d) == 3)
    E.ensure('the earlier entries are kept', d['logscore'][0] is old[0]
             and d['column_crp_alpha'][0] == 1.
             and d['column_partition'][0] == 'p')
    E.ensure_eq('the score', d['logscore'][1], score)
    E.ensure_eq('the concentration', d['column_crp_alpha'][1],
                st.crp.hypers['alpha'])
    pairs = E.dict(d['column_partition'][1])
    E.ensure_eq('as many columns', E.length(pairs), E.length(W.Zv))
    c = E.pick('c', W.Zv)
    E.ensure_eq('the view of every column', pairs[c], W.z(c))


@unit('C15', 'foreign', [S + '.transition_foreign'], trials=40)
def _(E):
    """Exactly the chosen composed models make transitions."""
    W = kernels(E)
    st = W.st
    n = E.choice('models', [0, 1, 2])
    log = []

    class Foreign(Stub):
        def __init__(self, t):
            self.t, self.outputs = t, [200 + 2 * t, 201 + 2 * t]

        def transition(self):
            log.append(self.t)
    E.assume_each(W.Zv, lambda c: c < 200)
    st.hooked_cgpms = dict((7 + t, Foreign(t)) for t in range(n))
    cols = E.choice('cols', [None, [], [200], [201], [203], [200, 202],
                             [200, 201], [999]])
    N = E.choice('N', [None, 2])
    if E.flag('own'):
        own = (cols or []) + [E.pick('c', W.Zv)]
        E.raises(VE, lambda: st.transition_foreign(
            N=N, cols=own, progress=False), 'a column of the state')
        E.ensure('nothing has run', log == [])
        return
    st.transition_foreign(N=N, cols=cols, progress=False)
    it = st.diagnostics['iterations']
    for t in range(n):
        picked = cols is None or any(
            o in cols for o in (200 + 2 * t, 201 + 2 * t))
        k = (N or 1) if picked else 0
        E.ensure_eq('the chosen models move', log.count(t), k)
        E.ensure_eq('and are counted', it.get('foreign-%d' % (7 + t), 0), k)
    counted(E, W, None)
