"""C11: inference over a view, proved over the contracts of its columns."""
from vf import sym
from vf.spec import unit, Stub
from specs.viewstubs import World, VW, Z
from specs.viewproofs import row_of


def token():
    return sym.CUR.taken if sym.CUR is not None else None


class Gibbs(World):
    """Columns whose predictive density of the row is only meaningful when
    the row is not held by the cluster that answers."""

    def __init__(self, E, n, **kw):
        World.__init__(self, E, n, lo=1, rows=1, **kw)
        self.r = self.row = row_of(E, self.view, True)
        self.pred = E.func('pred')
        self.wrong = E.func('wrong')
        self.out = None
        W = self

        def unincorporate(d, rowid):
            E.ensure_eq('only the row is taken out', rowid, W.r)
            E.ensure('the row is taken out once', not W.is_out())
            W.out = (d, token())

        def incorporate(d, rowid, observation, inputs=None):
            E.ensure_eq('only the row is put back', rowid, W.r)
            E.ensure('the row is put back where it was taken out',
                     W.is_out() and W.out[0] is d)
            W.same_dict('the row is put back with its cell', observation,
                        E.dict([(d.index, W.X(d.index, W.r))]))
            W.same_dict('the row is put back in its cluster', inputs,
                        W.inputs_of(d.index, W.r, W.view.Zr(W.r)))
            W.out = None

        def logpdf(d, rowid, targets, constraints=None, inputs=None):
            E.ensure('the density is not constrained', not constraints)
            W.same_dict('the density of the cell of the row', targets,
                        E.dict([(d.index, W.X(d.index, W.r))]))
            k = inputs[Z]
            W.same_dict('the density given the cluster and the inputs',
                        inputs, W.inputs_of(d.index, W.r, k))
            if k == W.view.Zr(W.r) and not (W.is_out()
                                            and W.out[0] is d):
                return W.wrong(d.index, k)
            return W.pred(d.index, k)
        self.StubDim.unincorporate = unincorporate
        self.StubDim.incorporate = incorporate
        self.StubDim.logpdf = logpdf

    def is_out(self):
        return self.out is not None and self.out[1] is token()

    def data_weight(self, k):
        return self.E.fold(self.dims, lambda c, d: self.pred(c, k))


for _n in (0, 1):
    @unit('C11', 'cell/%d inputs' % _n, [VW + '._logpdf_cell_gibbs'],
          trials=25)
    def _(E, n=_n):
        W = Gibbs(E, n)
        c = E.pick('c', W.dims)
        k = E.int('k', lo=0)
        r = W.view._logpdf_cell_gibbs(W.r, W.dims[c], k)
        E.ensure_eq('the predictive density of the cell without the row',
                    r, W.pred(c, k))
        E.ensure('the row is back in its cluster', not W.is_out())

    @unit('C11', 'row/%d inputs' % _n, [VW + '._logpdf_row_gibbs',
                                        VW + '._logpdf_cell_gibbs'],
          trials=25)
    def _(E, n=_n):
        W = Gibbs(E, n)
        m = E.size('tables', lo=1)
        K = E.table('K', m, E.func('table', sort='int'))
        got = W.view._logpdf_row_gibbs(W.r, K)
        E.family_eq('the density of a row sums its cells', got,
                    E.mapped(W.data_weight, K))


class Tables(Stub):
    """The contract of the row partition in a Gibbs step (C06)."""

    def __init__(self, E, K, lp, row, data):
        self.E, self.K, self.lp, self.row = E, K, lp, row
        self.data = data

    def gibbs_tables(self, rowid, m=1):
        self.E.ensure_eq('the tables for the row', rowid, self.row)
        self.E.ensure_eq('one auxiliary table', m, 1)
        return self.K

    def gibbs_logps(self, rowid, m=1):
        self.E.ensure_eq('the tables for the row', rowid, self.row)
        self.E.ensure_eq('one auxiliary table', m, 1)
        return self.lp


@unit('C11', 'step', [VW + '._gibbs_transition_row'], trials=40)
def _(E):
    """A row moves to a table with probability proportional to the seating
    weight times the density of its cells."""
    W = Gibbs(E, E.choice('inputs', (0, 1)))
    v = W.view
    m = E.size('tables', lo=1)
    table, prior = E.func('table', sort='int'), E.func('prior')
    K, lp = E.table('K', m, table), E.table('lp', m, prior)
    data = v.crp.clusters[0].data
    old = data[W.r]
    v.crp = Stub()
    v.crp.clusters = {0: Tables(E, K, lp, W.r, data)}
    moves = []
    E.replace(v, '_migrate_row', lambda r, k: moves.append((r, k)))
    E.replace(v, '_check_partitions', lambda: None)
    v._gibbs_transition_row(W.r)
    E.same_law_at('the table of the row', v.rng.draws, K,
                  lambda i: prior(i) + W.data_weight(table(i)))
    E.ensure('every column has the row', not W.is_out())
    if v.rng.draws:
        z = v.rng.draws[0][2]
    else:
        z = K[0]
    if z == old:
        E.ensure('the row stays', not moves)
    else:
        E.ensure('the row moves once', len(moves) == 1)
        E.ensure_eq('the row moves', moves[0][0], W.r)
        E.ensure_eq('the row moves to the drawn table', moves[0][1], z)


@unit('C11', 'migrate', [VW + '._migrate_row'], trials=25)
def _(E):
    """A row moves with all its cells."""
    W = World(E, 0, rows=1)
    v = W.view
    r = row_of(E, v, True)
    k = E.int('k', lo=0)
    calls = []
    E.replace(v, 'unincorporate', lambda rowid: calls.append(('out', rowid)))
    E.replace(v, 'incorporate', lambda rowid, observation, inputs:
              calls.append(('in', rowid, observation)))
    v._migrate_row(r, k)
    E.ensure('the row is taken out, then put in',
             [c[0] for c in calls] == ['out', 'in'])
    E.ensure_eq('the row is taken out', calls[0][1], r)
    E.ensure_eq('the row is put in', calls[1][1], r)
    obs = calls[1][2]
    E.ensure_eq('the row is put in the new cluster', obs[Z], k)
    E.ensure_eq('all cells move', E.length(obs), E.length(W.dims) + 1)
    if E.symbolic or W.dims:
        c = E.pick('c', W.dims)
        E.ensure_eq('all cells move', obs[c], W.X(c, r))


def frames(E):
    """A view whose kernels are recorded."""
    W = World(E, 0, rows=1)
    v = W.view
    E.replace(v, '_gibbs_transition_row', lambda r: E.event('row', r))
    real = v.crp
    v.crp = Stub()
    v.crp.clusters, v.crp.hypers = real.clusters, real.hypers
    v.crp.transition_hypers = lambda: E.event('alpha', 1)
    v.crp.transition_hyper_grids = lambda *a, **k: E.event('alphagrid', 1)
    return W, v


def only(E, *kinds):
    E.ensure('nothing else changes', all(e[0] in kinds for e in E.events),
             [e[0] for e in E.events])


@unit('C11', 'rows', [VW + '.transition_rows'], trials=20)
def _(E):
    W, v = frames(E)
    v.transition_rows()
    E.ensure_each('every row moves once', v.crp.clusters[0].data, 'row')
    only(E, 'row')


@unit('C11', 'some rows', [VW + '.transition_rows'], trials=20)
def _(E):
    W, v = frames(E)
    rows = E.map('rows', lambda k: 1)
    v.transition_rows(rows=rows.keys() if E.symbolic else list(rows))
    E.ensure_each('exactly the chosen rows move, once', rows, 'row')
    only(E, 'row')


@unit('C15', 'view hypers', [VW + '.transition_dim_hypers',
                        VW + '.transition_dim_grids',
                        VW + '.transition_crp_alpha'], trials=20)
def _(E):
    W, v = frames(E)
    which = E.choice('which', ('hypers', 'grids', 'alpha'))
    if which == 'hypers':
        v.transition_dim_hypers()
        E.ensure_each('every column, once', W.dims, 'hypers')
    elif which == 'grids':
        v.transition_dim_grids()
        E.ensure_each('every column, once', W.dims, 'grids')
    else:
        v.transition_crp_alpha()
        E.ensure('the concentration', len(E.events) >= 1)
    only(E, which)


@unit('C15', 'some view hypers', [VW + '.transition_dim_hypers',
                             VW + '.transition_dim_grids'], trials=20)
def _(E):
    W, v = frames(E)
    c = E.pick('c', W.dims)
    if E.flag('grids'):
        v.transition_dim_grids(cols=[c])
        only(E, 'grids')
    else:
        v.transition_dim_hypers(cols=[c])
        only(E, 'hypers')
    E.ensure('one column', len(E.events) == 1)
    E.ensure_eq('exactly the chosen column', E.events[0][1], c)
