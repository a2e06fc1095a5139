"""C13: the table, the views and the columns of a state, proved over the
contracts of the views."""
from vf import sym
from vf.spec import unit, Stub
from specs.statestubs import S, BASE, CRP, NAN, StateWorld, StubView

VE = (ValueError,)


def new_row(E, W, obs, cluster=None):
    """What incorporating obs as a new row must tell the views."""
    def on_incorporate(view, rowid, observation):
        E.ensure_eq('the row enters a view', rowid, W.n)
        # an arbitrary column
        c = E.int('c')
        E.ensure('a view gets the cells of its columns',
                 (c in observation) == E.truth(c in view.dims or (
                     cluster is not None and c == cluster[0]
                     and view.v == cluster[0] - BASE)))
        if c in observation:
            if c in view.dims:
                E.ensure('the cells of the row',
                         E.same(observation[c], obs.get(c, NAN)))
            else:
                E.ensure_eq('the cluster of the row', observation[c],
                            cluster[1])
    W.on_incorporate = on_incorporate


@unit('C13', 'row/incorporate', [S + '.incorporate', S + '.n_rows',
                                 S + '.hypothetical'], trials=30)
def _(E):
    W = StateWorld(E)
    obs = E.part_of('obs', W.Zv, lambda k: E.real('x'))
    new_row(E, W, obs)
    W.st.incorporate(W.n, obs)
    E.ensure_each('every column gets its cell', W.Zv, 'append',
                  lambda c, p: E.same(p, obs.get(c, NAN)))
    E.ensure_each('every view gets the row once', W.views, 'incorporate')
    E.ensure('nothing else happens', set(e[0] for e in E.events) <= set(
        ['append', 'incorporate']))


def only(E, *kinds):
    E.ensure('nothing else happens',
             set(e[0] for e in E.events) <= set(kinds), E.events)


@unit('C13', 'row/cluster', [S + '.incorporate', S + '.n_rows',
                             S + '.hypothetical'], trials=30)
def _(E):
    """The cluster of the row in a view may be given."""
    W = StateWorld(E)
    obs = E.part_of('obs', W.Zv, lambda k: E.real('x'))
    v, k = E.pick('v', W.views), E.int('k', lo=0)
    given = obs.copy()
    given[BASE + v] = k
    new_row(E, W, obs, (BASE + v, k))
    W.st.incorporate(W.n, given)
    E.ensure_each('every column gets its cell', W.Zv, 'append',
                  lambda c, p: E.same(p, obs.get(c, NAN)))
    E.ensure_each('every view gets the row once', W.views, 'incorporate')
    only(E, 'append', 'incorporate')


@unit('C13', 'row/unincorporate', [S + '.unincorporate', S + '.n_rows'],
      trials=30)
def _(E):
    W = StateWorld(E)
    W.on_unincorporate = lambda view, rowid: E.ensure_eq(
        'the last row leaves a view', rowid, W.n - 1)
    E.assume(W.n >= 2)
    W.st.unincorporate(W.n - 1)
    E.ensure_each('every column loses its last cell', W.Zv, 'pop')
    E.ensure_each('every view loses the row once', W.views, 'unincorporate')
    only(E, 'pop', 'unincorporate')


@unit('C13', 'row/reject', [S + '.incorporate', S + '.unincorporate',
                            S + '.force_cell'], trials=40)
def _(E):
    W = StateWorld(E)
    st = W.st
    r = E.int('r')
    x = E.real('x')
    c = E.pick('c', W.Zv)
    kind = E.choice('kind', ['new', 'name', 'nan', 'inputs', 'last', 'all',
                             'cell', 'force'])
    if kind == 'new':
        E.assume(r != W.n)
        E.raises(VE, lambda: st.incorporate(r, E.dict([(c, x)])),
                 'only the next row can be added')
    elif kind == 'name':
        u = E.int('u')
        E.assume(u not in W.Zv)
        E.assume(E.Or(u < BASE, u - BASE not in W.views))
        E.raises(VE, lambda: st.incorporate(W.n, E.dict([(u, x)])),
                 'an unknown column')
    elif kind == 'nan':
        E.raises(VE, lambda: st.incorporate(W.n, E.dict([(c, NAN)])),
                 'a missing value is not given')
    elif kind == 'inputs':
        E.raises(VE, lambda: st.incorporate(W.n, E.dict([(c, x)]), {1: 2}),
                 'there are no inputs')
    elif kind == 'last':
        E.assume(r != W.n - 1)
        E.raises(VE, lambda: st.unincorporate(r),
                 'only the last row can be removed')
    elif kind == 'all':
        E.assume(W.n == 1)
        E.raises(VE, lambda: st.unincorporate(0), 'a row remains')
    elif kind == 'cell':
        E.assume(E.Or(r < 0, r >= W.n))
        E.raises(VE, lambda: st.force_cell(r, E.dict([(c, x)])),
                 'only an existing row can be forced')
    else:
        E.assume(E.And(r >= 0, r < W.n))
        E.assume(E.Not(E.missing(W.cell(c, r))))
        E.raises(VE, lambda: st.force_cell(r, E.dict([(c, x)])),
                 'only a missing cell can be forced')
    E.ensure('nothing happens', not E.events, E.events)


@unit('C13', 'force_cell', [S + '.force_cell'], trials=40)
def _(E):
    """Missing cells are set in the table and in the views of the columns."""
    W = StateWorld(E)
    st = W.st
    r = E.int('r', lo=0)
    E.assume(r < W.n)
    two = E.choice('two', [False, True])
    a, x = E.pick('a', W.Zv), E.real('x')
    obs = [(a, x)]
    if two:
        b, y = E.pick('b', W.Zv), E.real('y')
        E.assume(a != b)
        obs.append((b, y))
    for c, _ in obs:
        E.assume(E.missing(W.cell(c, r)))

    def forced(view, rowid, observation):
        E.ensure_eq('the row of the view', rowid, r)
        mine = [(c, x) for c, x in obs if W.z(c) == view.v]
        E.ensure('the cells of a view', len(observation) == len(mine) and
                 all(c in observation for c, _ in mine))
        for c, x in mine:
            E.ensure_eq('the values of a view', observation[c], x)
    W.on_force = forced
    st.force_cell(r, E.dict(obs))
    sets = [e for e in E.events if e[0] == 'set']
    E.ensure('each cell is set once', len(sets) == len(obs))
    for e, (c, x) in zip(sorted(sets, key=lambda e: [
            i for i in range(len(obs)) if e[1] == obs[i][0]]), obs):
        E.ensure_eq('the column', e[1], c)
        E.ensure_eq('the row', e[2][0], r)
        E.ensure_eq('the value', e[2][1], x)
    vs = [e[1] for e in E.events if e[0] == 'force']
    if two and W.z(a) != W.z(b):
        E.ensure('each view is told once', len(vs) == 2)
        E.ensure('each view is told once', E.Or(
            E.And(vs[0] == W.z(a), vs[1] == W.z(b)),
            E.And(vs[1] == W.z(a), vs[0] == W.z(b))))
    else:
        E.ensure('the view is told once', len(vs) == 1)
        E.ensure_eq('the view is told once', vs[0], W.z(a))
    only(E, 'set', 'force')


def partition_contract(E, z, views):
    """partition_list: the blocks of L by their label z (C07), every label
    being one of the views."""
    def f(Z, L):
        E.forall('the labels', L.keys(), lambda c: E.eq(Z[c], z(c)))
        block = lambda v: E.submap(L, lambda c: E.eq(z(c), v))
        return E.submap(views, lambda v: E.length(block(v)) >= 1,
                        lambda v: block(v).keys())
    E.stub('cgpm.utils.validation:partition_list', f)


@unit('C13', 'force_cell/any cells', [S + '.force_cell'], trials=60)
def _(E):
    """Any set of missing cells of a row."""
    W = StateWorld(E)
    st = W.st
    r = E.int('r', lo=0)
    E.assume(r < W.n)
    val = E.func('new')
    obs = E.part_of('obs', W.Zv, val)
    if E.symbolic:
        E.assume_each(obs, lambda c: E.missing(W.cell(c, r)))
    else:
        obs = dict((c, obs[c]) for c in obs if E.missing(W.cell(c, r)))
    partition_contract(E, W.z, W.views)
    mine = lambda v: E.submap(obs, lambda c: E.eq(W.z(c), v), val)

    def forced(view, rowid, observation):
        E.ensure_eq('the row of the view', rowid, r)
        m = mine(view.v)
        E.ensure_eq('the cells of a view', E.length(observation),
                    E.length(m))
        if E.truth(E.length(m) >= 1):
            c = E.pick('c', m)
            E.ensure('the cells of a view', c in observation)
            E.ensure_eq('the values of a view', observation[c], val(c))
    W.on_force = forced
    given = obs.clone() if E.symbolic else dict(obs)
    st.force_cell(r, given)
    E.ensure_each('each cell is set once', obs, 'set', lambda c, p: E.And(
        p[0] == r, E.same(p[1], val(c))))
    E.ensure_each('each view with a forced cell is told once', E.submap(
        W.views, lambda v: E.length(mine(v)) >= 1), 'force')
    only(E, 'set', 'force')


@unit('C13', 'score', [S + '.logpdf_score', S + '.logpdf_likelihood',
                       S + '.logpdf_score_crp'], trials=30)
def _(E):
    W = StateWorld(E)
    st = W.st
    crp = st.crp.logpdf_score()
    E.ensure_eq('the score of the columns is that of their partition',
                st.logpdf_score_crp(), crp)
    E.ensure_eq('the likelihood sums the views', st.logpdf_likelihood(),
                E.fold(W.views, lambda v, _: W.vlike(v)))
    E.ensure_eq('the score is that of the partition and of the views',
                st.logpdf_score(),
                crp + E.fold(W.views, lambda v, _: W.vscore(v)))


def dims_world(E, W):
    """Record what happens to the views when columns move."""
    ev = []
    W.on_incorporate_dim = lambda view, dim, reassign: ev.append(
        ('add', view, dim, reassign))
    W.on_unincorporate_dim = lambda view, dim: ev.append(
        ('remove', view, dim))
    return ev


class NewDim(Stub):
    """The contract of Dim(...) for a new column."""
    made = []

    def __init__(self, outputs, inputs, cctype=None, hypers=None,
                 params=None, distargs=None, rng=None):
        self.outputs, self.inputs, self.cctype = outputs, inputs, cctype
        self.hypers, self.params = hypers, params
        self.distargs, self.rng = distargs, rng
        self.index = outputs[0]
        self.grids = []
        self.made.append(self)

    def transition_hyper_grids(self, X, n_grid=30):
        self.grids.append(X)


def is_column(E, W, D, col, cctype, distargs, view, T):
    st = W.st
    E.ensure('the column models the output', len(D.outputs) == 1)
    E.ensure_eq('the column models the output', D.outputs[0], col)
    E.ensure('its input is the cluster', len(D.inputs) == 1)
    E.ensure_eq('its input is the cluster', D.inputs[0], view.outputs[0])
    E.ensure('it has the type', D.cctype == cctype)
    E.ensure('it has the arguments', D.distargs == distargs)
    E.ensure('it draws from the generator of the state', D.rng is st.rng)
    E.ensure('its hypers and parameters are new',
             not D.hypers and not D.params)
    E.ensure('its grids are made from the data', len(D.grids) == 1 and
             D.grids[0] is T)


for _kind in ('given', 'fresh', 'any'):
    @unit('C13', 'dim/incorporate/' + _kind, [
        S + '.incorporate_dim', S + '._append_view', S + '.set_outputs'],
        trials=30)
    def _(E, kind=_kind):
        W = StateWorld(E)
        st = W.st
        ev = dims_world(E, W)
        ran = []
        new = type('NewDim', (NewDim,), {'made': []})
        E.patch('cgpm.crosscat.state:Dim', new)
        col = E.int('col', lo=0)
        E.assume(E.And(col not in W.Zv, col < CRP))
        T = E.array('T', W.n, lambda i: E.real('t'))

        class NewView(StubView):
            def __init__(self, X, outputs=None, inputs=None, Zr=None,
                         alpha=None, cctypes=None, distargs=None,
                         hypers=None, rng=None):
                E.ensure('a new view is over the table', X is st.X)
                E.ensure('a new view draws from the generator of the state',
                         rng is st.rng)
                E.ensure('the rows of a new view are drawn anew',
                         not (Zr or inputs or cctypes or hypers) and
                         alpha is None)
                self.W, self.v = W, outputs[0] - BASE
                self.outputs, self.dims = outputs, {}
                made.append(self)
        made = []
        E.patch('cgpm.crosscat.state:View', NewView)
        E.replace(st, 'transition_dims', lambda cols, m: ran.append(
            ('dims', cols)))
        E.replace(st, 'transition_dim_hypers', lambda cols: ran.append(
            ('hypers', cols)))
        E.replace(st, '_update_is_composite', lambda: ran.append('composite'))
        n = E.length(W.Zv)
        if kind == 'given':
            v = E.pick('v', W.views)
            before = st.Nv(v)
        elif kind == 'fresh':
            v, before = E.int('v', lo=0), 0
            E.assume(v not in W.views)
        else:
            v, before = None, st.Nv().get(0, 0)
        was = 0 in W.views if v is None else kind == 'given'
        cctype, args = E.choice('type', [('normal', None),
                                         ('categorical', {'k': 5})])
        st.incorporate_dim(T, [col], None, cctype, args, v)
        at = 0 if v is None else v
        E.ensure('one column is made', len(new.made) == 1)
        D = new.made[0]
        E.ensure('one view gets it', len(ev) == 1 and ev[0][0] == 'add')
        view = ev[0][1]
        E.ensure('the column enters', ev[0][2] is D)
        E.ensure('every row of the column is entered', ev[0][3])
        E.ensure('the view is new if it was not there',
                 len(made) == (0 if was else 1) and
                 (was or view is made[0]))
        E.ensure('the view is a view of the state', st.views[at] is view)
        E.ensure_eq('the view is the chosen one', view.outputs[0], BASE + at)
        is_column(E, W, D, col, cctype, args, view, T)
        E.ensure_eq('the column is assigned to the view', st.Zv(col), at)
        E.ensure_eq('the view counts the column', st.Nv(at), before + 1)
        E.ensure_eq('the other columns stay', E.length(st.Zv()), n + 1)
        E.ensure('the column is in the table', st.X[col] is T)
        E.ensure('the column is an output', col in st.outputs and
                 st.has_output(col))
        E.ensure_eq('the other outputs stay', E.length(st.outputs), n + 1)
        moved = [x[1] for x in ran if x[0] == 'dims']
        hyper = [x[1] for x in ran if x[0] == 'hypers']
        E.ensure('the view is inferred only if it was not given',
                 len([c for m in moved for c in m]) == (v is None))
        for c in [c for m in moved for c in m]:
            E.ensure_eq('only the new column moves', c, col)
        E.ensure('the hypers of the column are inferred',
                 len(hyper) == 1 and len(hyper[0]) == 1)
        E.ensure_eq('the hypers of the column are inferred', hyper[0][0],
                    col)
        E.ensure('conditional columns are looked for afterwards',
                 'composite' in ran)


@unit('C13', 'dim/unincorporate', [S + '.unincorporate_dim',
                                   S + '._delete_view'], trials=30)
def _(E):
    W = StateWorld(E, lo=2)
    st = W.st
    ev = dims_world(E, W)
    ran = []
    E.replace(st, '_update_is_composite', lambda: ran.append('composite'))
    col, other = E.pick('col', W.Zv), E.pick('other', W.Zv)
    E.assume(col != other)
    v, n = st.Zv(col), E.length(W.Zv)
    w = st.Zv(other)
    before, views = st.Nv(v), E.length(st.views)
    view = st.views[v]
    st.unincorporate_dim(col)
    E.ensure('the column leaves its view', len(ev) == 1 and
             ev[0][0] == 'remove' and ev[0][1] is view and E.truth(ev[0][2].c == col))
    E.ensure('the column is gone', col not in st.Zv())
    E.ensure_eq('the other columns stay', E.length(st.Zv()), n - 1)
    E.ensure_eq('the other columns keep their views', st.Zv(other), w)
    E.ensure('the column is no output', col not in st.outputs and
             not st.has_output(col))
    E.ensure('the other outputs stay', other in st.outputs and
             st.has_output(other))
    E.ensure_eq('the other outputs stay', E.length(st.outputs), n - 1)
    if before == 1:
        E.ensure('an empty view is removed', v not in st.views and
                 v not in st.Nv())
        E.ensure_eq('the other views stay', E.length(st.views), views - 1)
    else:
        E.ensure('the view stays', st.views[v] is view)
        E.ensure_eq('the view counts its columns', st.Nv(v), before - 1)
        E.ensure_eq('the views stay', E.length(st.views), views)
    E.ensure('the views of the others stay', w in st.views)
    E.ensure('the cells are forgotten', [e[0] for e in E.events] == [
        'forget'] and E.truth(E.events[0][1] == col))
    E.ensure('conditional columns are looked for afterwards',
             'composite' in ran)


@unit('C13', 'dim/reject', [S + '.incorporate_dim', S + '.unincorporate_dim'
                            ], trials=30)
def _(E):
    kind = E.choice('kind', ['rows', 'two', 'exists', 'inputs', 'last',
                             'unknown'])
    W = StateWorld(E)
    st = W.st
    ev = dims_world(E, W)
    c, u = E.pick('c', W.Zv), E.int('u', lo=0)
    E.assume(u not in W.Zv)
    m = E.size('m')
    T = E.array('T', W.n, lambda i: E.real('t'))
    n = E.length(W.Zv)
    if kind == 'rows':
        T = E.array('T', m, lambda i: E.real('t'))
        E.assume(m != W.n)
        E.raises(VE, lambda: st.incorporate_dim(T, [u]), 'a cell per row')
    elif kind == 'two':
        E.raises(VE, lambda: st.incorporate_dim(T, [u, u + 1]),
                 'one column at a time')
    elif kind == 'exists':
        E.raises(VE, lambda: st.incorporate_dim(T, [c]),
                 'the column is new')
    elif kind == 'inputs':
        E.raises(VE, lambda: st.incorporate_dim(T, [u], [c]),
                 'there are no inputs')
    elif kind == 'last':
        E.assume(n == 1)
        E.raises(VE, lambda: st.unincorporate_dim(c), 'a column remains')
    else:
        E.raises(VE, lambda: st.unincorporate_dim(u),
                 'the column is known')
    E.ensure('nothing happens', not E.events and not ev)
    E.ensure_eq('the columns stay', E.length(st.Zv()), n)
    E.ensure_eq('the outputs stay', E.length(st.outputs), n)
    E.ensure('the column is still there', c in st.outputs)


@unit('C13', 'update_cctype', [S + '.update_cctype',
                               S + '.transition_dim_grids'], trials=30)
def _(E):
    W = StateWorld(E)
    st = W.st
    ran = []
    E.replace(st, '_update_is_composite', lambda: ran.append('composite'))
    col = E.pick('col', W.Zv)
    cctype, args = E.choice('type', [('normal', None),
                                     ('categorical', {'k': 5})])
    st.update_cctype(col, cctype, args)
    kinds = [e[0] for e in E.events]
    E.ensure('the view changes the column, then it is inferred',
             kinds[:2] == ['cctype', 'grids'] and
             sorted(kinds[2:]) == ['hypers', 'params'], kinds)
    for e in E.events:
        E.ensure_eq('only the column changes', e[1], col)
    E.ensure('the type and the arguments', E.events[0][2] == (cctype, args))
    E.ensure('conditional columns are looked for afterwards',
             ran == ['composite'])


# --------------------------------------------------------------------------
# Bulk updates are the single updates, in order.

for _kind in ('incorporate', 'force_cell'):
    @unit('C13', 'bulk/' + _kind, ['%s.%s_bulk' % (S, _kind)], trials=15)
    def _(E, kind=_kind):
        n = E.size('updates', lo=0)
        st = E.bare(E.get(S))
        obs = E.func('obs', sort='int')
        rows = E.table('rowids', n, lambda i: i)
        l = E.table('observations', n, obs)
        inputs = E.int('inputs')
        if kind == 'incorporate':
            def incorporate(rowid, observation, inputs=None):
                E.event('update', rowid, (observation, inputs))
            st.incorporate = incorporate
            st.incorporate_bulk(rows, l, inputs)
            same = lambda i, p: E.And(E.eq(p[0], obs(i)), E.eq(p[1], inputs))
        else:
            def force_cell(rowid, observation):
                E.event('update', rowid, (observation,))
            st.force_cell = force_cell
            st.force_cell_bulk(rows, l)
            same = lambda i, p: E.eq(p[0], obs(i))
        E.ensure_each('one update for each row', E.upto(n), 'update', same)
        if not E.symbolic:
            E.ensure('in order', [e[1] for e in E.events or ()] ==
                     list(range(n)))
