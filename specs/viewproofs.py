"""C10-C11: the methods of a view, proved over the contracts of its columns."""
from vf.spec import unit, Stub
from specs.viewstubs import World, VW, Z, Table, Column

D_IN_VIEW = 'cgpm.mixtures.view:Dim'

ANY = (Exception,)


@unit('C10', 'score', [VW + '.logpdf_score', VW + '.logpdf_prior',
                       VW + '.logpdf_likelihood'])
def _(E):
    W = World(E)
    v = W.view
    like = E.fold(W.dims, lambda c, d: W.score(c))
    prior = v.crp.clusters[0].logpdf_score()
    E.ensure_eq('the likelihood sums the columns', v.logpdf_likelihood(),
                like)
    E.ensure_eq('the prior is the score of the row partition',
                v.logpdf_prior(), prior)
    E.ensure_eq('the score is prior plus likelihood', v.logpdf_score(),
                prior + like)


def row_of(E, v, old):
    r = E.int('rowid', lo=0)
    data = v.crp.clusters[0].data
    if old:
        if E.symbolic:
            E.assume(r in data)
        else:
            r = E.pick('row', data)
    else:
        E.assume(r not in data)
    return r


for _n in (0, 1, 2):
    @unit('C10', 'incorporate/%d inputs' % _n, [VW + '.incorporate'],
          trials=25)
    def _(E, n=_n):
        W = World(E, n)
        v, r = W.view, row_of(E, W.view, False)
        k = E.int('k', lo=0)
        val = E.func('value')
        obs = E.map_over(W.dims, lambda c: val(c))
        obs[Z] = k

        def got(d, rowid, observation, inputs):
            E.ensure_eq('columns receive the row', rowid, r)
            W.same_dict('a column receives its own cell', observation,
                        E.dict([(d.index, val(d.index))]))
            W.same_dict('a column receives the cluster and its inputs',
                        inputs, W.inputs_of(d.index, r, k))
        W.on_incorporate = got
        before = v.crp.clusters[0].counts.get(k, 0)
        N = v.n_rows() if not E.symbolic else E.length(v.Zr())
        v.incorporate(r, obs)
        E.ensure_each('every column receives the row once', W.dims,
                      'incorporate')
        E.ensure_eq('the row is in the given cluster', v.Zr(r), k)
        E.ensure_eq('the cluster grows by one', v.Nk(k), before + 1)
        E.ensure_eq('one more row', E.length(v.Zr()), N + 1)
        E.ensure('the row is new to the partition only once',
                 r in v.crp.Zr)

    @unit('C10', 'unincorporate/%d inputs' % _n, [VW + '.unincorporate'],
          trials=25)
    def _(E, n=_n):
        W = World(E, n, rows=1)
        v = W.view
        r = W.row = row_of(E, v, True)
        k = v.Zr(r)
        before = v.Nk(k)
        N = E.length(v.Zr())
        v.unincorporate(r)
        E.ensure_each('every column loses the row once', W.dims,
                      'unincorporate')
        E.ensure('the row is gone', r not in v.Zr())
        E.ensure_eq('one row less', E.length(v.Zr()), N - 1)
        if before == 1:
            E.ensure('an empty cluster is dropped', k not in v.Nk())
            E.ensure_each('an empty cluster is dropped by every column',
                          W.dims, 'drop', lambda c, p: E.eq(p, k))
        else:
            E.ensure_eq('the cluster shrinks by one', v.Nk(k), before - 1)
            E.ensure('an occupied cluster is kept by every column',
                     not [e for e in E.events if e[0] == 'drop'])


@unit('C10', 'structure', [VW + '.incorporate_dim', VW + '.unincorporate_dim'
                           ], trials=25)
def _(E):
    """A column moves in and out of the view by its name."""
    W = World(E)
    v = W.view
    c = E.int('c', lo=0)
    E.assume(c not in W.dims)
    E.assume(c != Z)
    d = W.StubDim(c)
    d.inputs[0] = Z + 1
    n = E.length(v.dims)
    r = v.incorporate_dim(d, reassign=False)
    E.ensure('the column is in the view', v.dims[c] is d)
    E.ensure_eq('the column takes its clusters from the view', d.inputs[0],
                Z)
    E.ensure_eq('one more column', E.length(v.dims), n + 1)
    E.ensure_eq('the score of the column is returned', r, W.score(c))
    E.ensure_eq('the cluster comes first', v.outputs[0], Z)
    E.ensure('the column is an output', c in v.outputs)
    E.ensure_eq('outputs are the cluster and the columns',
                E.length(v.outputs), n + 2)
    E.ensure('no row is touched', not [
        e for e in E.events if e[0] in ('incorporate', 'unincorporate')])
    r = v.unincorporate_dim(d)
    E.ensure_eq('the score of the column is returned again', r, W.score(c))
    E.ensure('the column is not in the view', c not in v.dims)
    E.ensure('the column is no output', c not in v.outputs)
    E.ensure_eq('the other columns stay', E.length(v.dims), n)
    E.ensure('no row is touched by the removal', not [
        e for e in E.events if e[0] in ('incorporate', 'unincorporate')])


for _n in (0, 1, 2):
    @unit('C10', 'bulk/%d inputs' % _n, [VW + '._bulk_incorporate',
                                         VW + '.incorporate_dim'], trials=25)
    def _(E, n=_n):
        """A column that is assigned anew receives every row once."""
        W = World(E, n)
        v = W.view
        c = E.int('c', lo=0)
        E.assume(c not in W.dims)
        E.assume(c != Z)
        rows = v.crp.clusters[0].data

        class Fresh(W.StubDim):
            def create_aux_model(self):
                return 'a fresh cluster'

            def incorporate(self, rowid, observation, inputs=None):
                W.same_dict('the column receives its own cell', observation,
                            E.dict([(c, W.X(c, rowid))]))
                W.same_dict('the column receives the cluster of the row '
                            'and its inputs', inputs,
                            W.inputs_of(c, rowid, rows[rowid]))
                E.event('row', rowid)
                if not E.symbolic:
                    self.Zr[rowid] = inputs[Z]

            def transition_params(self):
                E.event('params', 1)
        d = Fresh(c)
        if n:
            E.assume(E.And(*[f(c) != Z for f in (W.in1, W.in2)[:n]]))
        d.clusters, d.Zr, d.Zi = {3: 1}, {3: 1}, {4: 1}
        if E.symbolic:
            d.__class__.Zr = property(lambda s: E.whole, lambda s, x: None)
            d.__class__.Zi = property(lambda s: {}, lambda s, x: None)
            E.whole = v.Zr()
        v.incorporate_dim(d)
        E.ensure('the old clusters are gone', 3 not in d.clusters)
        E.ensure('the fresh cluster is made anew',
                 d.aux_model == 'a fresh cluster')
        E.ensure_each('every row is received once', rows, 'row')
        E.ensure('the parameters are drawn once', len([
            e for e in E.events if e[0] == 'params']) == 1)


def force(n):
    @unit('C10', 'force_cell/%d inputs' % n, [VW + '.force_cell'], trials=25)
    def _(E):
        """Setting a cell enters the row anew in that column and in those that
        depend on it, and in no other."""
        W = World(E, n, lo=1, rows=1)
        v = W.view
        r = W.row = row_of(E, v, True)
        c = E.pick('c', W.dims)
        k = v.Zr(r)
        if n and not E.symbolic:        # some columns depend on this one
            first = W.in1
            W.in1 = lambda d: c if d != c and first(d) % 2 else first(d)
            for d in W.dims:
                W.dims[d].inputs[1] = W.in1(d)
        ins = (W.in1, W.in2)[:n]
        x = W.X(c, r)                   # the table holds the new cell
        for f in ins:
            E.assume(f(c) != c)

        def got(d, rowid, observation, inputs):
            E.ensure_eq('the row', rowid, r)
            W.same_dict('the cell of the column', observation,
                        E.dict([(d.index, W.X(d.index, r))]))
            W.same_dict('the cluster of the row and the inputs', inputs,
                        W.inputs_of(d.index, r, k))
        W.on_incorporate = got
        v.force_cell(r, E.dict([(c, x)]))
        touched = E.submap(W.dims, lambda d: E.Or(
            E.eq(d, c), *[E.eq(f(d), c) for f in ins]), lambda d: 0)
        for kind in ('unincorporate', 'incorporate'):
            E.ensure_each('that column and those that depend on it: ' + kind,
                          touched, kind)
        E.ensure('the row leaves before it enters', [
            e[0] for e in E.events][:2] == ['unincorporate', 'incorporate'])
        if not E.symbolic:
            for d in W.dims:
                E.ensure('the row leaves a column before it enters it', [
                    e[0] for e in E.events if e[1] == d] in (
                        [], ['unincorporate', 'incorporate']))
        E.ensure_eq('the cluster of the row is kept', v.Zr(r), k)


for _n in (0, 1, 2):
    force(_n)


def new_dim(E, W):
    """Record the new columns instead of making them."""
    made = []

    class NewDim(Stub):
        def __init__(self, outputs, inputs, cctype=None, hypers=None,
                     params=None, distargs=None, rng=None):
            self.outputs, self.inputs, self.cctype = outputs, inputs, cctype
            self.hypers, self.params = hypers, params
            self.distargs, self.rng = distargs, rng
            self.index = outputs[0]
            made.append(self)
    E.patch(D_IN_VIEW, NewDim)
    E.replace(W.view, 'unincorporate_dim',
              lambda dim: E.event('remove', dim))
    E.replace(W.view, 'incorporate_dim',
              lambda dim, reassign=True: E.event('add', dim, reassign))
    return made


def replaced(E, W, col, new):
    v = W.view
    E.ensure('the old column leaves, then the new one enters',
             [e[0] for e in E.events] == ['remove', 'add'], E.events)
    E.ensure('the old column leaves', E.events[0][1] is v.dims[col])
    E.ensure('the new column enters', E.events[1][1] is new)
    E.ensure('its rows are entered', E.events[1][2])
    E.ensure('it models the column', len(new.outputs) == 1)
    E.ensure_eq('it models the column', new.outputs[0], col)
    E.ensure('it draws from the generator of the view', new.rng is v.rng)
    E.ensure('hyperparameters and parameters are new',
             not new.hypers and not new.params)


@unit('C10', 'update_cctype', [VW + '.update_cctype'], trials=20)
def _(E):
    """The column is replaced by one of the new type."""
    W = World(E, 0, lo=1)
    col = E.pick('col', W.dims)
    cctype = E.choice('cctype', ['normal', 'categorical', 'poisson'])
    args = E.choice('distargs', [None, {'k': 5}])
    made = new_dim(E, W)
    W.view.update_cctype(col, cctype, args)
    E.ensure('one new column', len(made) == 1)
    new = made[0]
    replaced(E, W, col, new)
    E.ensure('it has the type', new.cctype == cctype)
    E.ensure('it has the arguments', dict(new.distargs or {}) == (args or {}))
    E.ensure('its input is the cluster', list(new.inputs) == [Z])


@unit('C10', 'update_cctype/conditional', [VW + '.update_cctype'], trials=20)
def _(E):
    """The inputs of a conditional column are the other unconditional
    columns."""
    W = World(E, 0, lo=2)
    col, c = E.pick('col', W.dims), E.pick('other', W.dims)
    E.assume(col != c)
    made = new_dim(E, W)
    W.view.update_cctype(col, 'linear_regression')
    E.ensure('one new column', len(made) == 1)
    new = made[0]
    replaced(E, W, col, new)
    E.ensure('it has the type', new.cctype == 'linear_regression')
    E.ensure_eq('the cluster is an input', new.inputs[0], Z)
    ins = new.distargs['inputs']
    E.ensure('all others are inputs', c in new.inputs[1:])
    E.ensure('it is no input of its own', col not in new.inputs)
    E.forall('the inputs are columns', new.inputs[1:], lambda i: i in W.dims)
    E.ensure('the indexes are the inputs', c in ins['indexes'])
    E.ensure_eq('the indexes are the inputs', E.length(ins['indexes']),
                E.length(new.inputs) - 1)
    E.forall('the indexes are the inputs', ins['indexes'],
             lambda i: i in new.inputs[1:])
