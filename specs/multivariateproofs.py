"""C25: multivariate components: what they keep of their rows, and what an
observed row adds to a query."""
from vf.spec import unit, Stub

FA = 'cgpm.factor.factor:FactorAnalysis'
KD = 'cgpm.kde.mvkde:MultivariateKde'
KN = 'cgpm.knn.mvknn:MultivariateKnn'
VE = (ValueError,)
KINDS = (('factor analysis', FA), ('kernel density', KD),
         ('nearest neighbours', KN))


class World(Stub):
    """A component of arbitrarily many rows, of three observable variables
    (and a latent one)."""

    def __init__(self, E, path):
        self.E = E
        self.m = m = E.bare(E.get(path))
        self.rows = E.map('rows', E.func('row'))
        m.data = E.copy(self.rows)
        m.N = self.N = E.length(E.keys(self.rows))
        self.observables = [5, 2, 9]
        m.outputs = [5, 2, 9]
        m.inputs = []
        if path == FA:
            m.outputs = [5, 2, 9, 30]
            m.observables, m.latents = [5, 2, 9], {30}
            m.D, m.L = 3, 1

    def same(self, what, rows=None, n=None):
        E, m = self.E, self.m
        E.same_maps(what + ': the rows', m.data,
                    self.rows if rows is None else rows)
        E.ensure_eq(what + ': their number', m.N, self.N if n is None else n)


def bookkeeping(kind, path):
    @unit('C25', 'incorporate/' + kind,
          [path + '.incorporate'] + (
              [path + '._validate_incorporate'] if path == KN else []),
          trials=200)
    def _(E):
        """One row more, with its observed cells at their places and the
        others missing; a malformed row is rejected and changes nothing."""
        W = World(E, path)
        m = W.m
        rowid = E.int('rowid')
        seen = [v for v in W.observables if E.flag('observes %d' % v)]
        obs = dict((v, E.real('cell%d' % v)) for v in seen[::-1])
        given = dict(obs)
        case = E.choice('case', ['fine', 'inputs', 'unknown variable'] + (
            ['latent variable'] if path == FA else []))
        inputs = {44: 1} if case == 'inputs' else None
        if case == 'unknown variable':
            obs[77] = E.real('odd')
        elif case == 'latent variable':
            obs[30] = E.real('odd')
        fine = not E.has(W.rows, rowid) and not inputs and obs == given \
            and len(given) > 0
        if not fine:
            E.raises(VE, lambda: m.incorporate(rowid, obs, inputs))
            W.same('rejected')
            return
        m.incorporate(rowid, obs, inputs)
        x = list(m.data[rowid])
        E.ensure('a cell for each variable', len(x) == 3)
        for v, c in zip(W.observables, x):
            if v in given:
                E.ensure_eq('the cell', c, given[v])
            else:
                E.ensure('missing', E.missing(c))
        r = E.int('some row')
        if r in W.rows:
            E.ensure('the others are kept', r in m.data)
            E.ensure_eq('their cells', m.data[r], W.rows[r])
        else:
            E.ensure('no other rows', E.Or(
                E.Not(r in m.data), E.eq(r, rowid)))
        E.ensure_eq('one row more', m.N, W.N + 1)

    @unit('C25', 'unincorporate/' + kind,
          [path + '.unincorporate'] + (
              [path + '._validate_unincorporate'] if path == KN else []),
          trials=120)
    def _(E):
        """Exactly that row is gone; an unknown row is rejected and changes
        nothing."""
        W = World(E, path)
        m = W.m
        rowid = E.int('rowid')
        if not E.has(W.rows, rowid):
            E.raises(VE, lambda: m.unincorporate(rowid))
            W.same('an unknown row')
            return
        m.unincorporate(rowid)
        W.same('after', E.dict(E.filtered(
            lambda t: E.Not(E.eq(t[0], rowid)), E.pairs(W.rows))), W.N - 1)

    @unit('C25', 'conditions of an observed row/' + kind,
          [path + '.populate_constraints'], trials=200)
    def _(E):
        """The observed cells that are neither asked for nor constrained
        join the constraints; a new row adds nothing."""
        W = World(E, path)
        m = W.m
        cell = E.cells('cell')
        if path == FA:
            names = m.observables
        else:
            names = m.outputs = E.keys(E.map('O', lambda v: 0))
        values = E.mapped(lambda v: cell(v), names)
        here = E.flag('an observed row')
        m.data = {3: values, 8: E.mapped(lambda v: cell(0), names)}
        rowid = 3 if here else 4
        constrained = E.func('constrained')
        T, C = E.map('T', lambda v: 0), E.map('C', constrained)
        targets = E.keys(T) if E.flag('a list') else E.copy(T)
        none = E.flag('no constraints')
        given = None if none else E.copy(C)
        out = m.populate_constraints(rowid, targets, given)
        C0 = E.empty_map() if none else C
        if here:
            want = E.dict(E.pairs(C0) + E.mapped(
                lambda v: (v, cell(v)), E.filtered(
                    lambda v: E.And(E.Not(E.missing(cell(v))),
                                    E.Not(E.has(T, v)),
                                    E.Not(E.has(C0, v))), names)))
        else:
            want = C0
        E.same_maps('the conditions', out, want)
        if not none:
            E.same_maps('the constraints of the caller are kept', given, C)


for _k, _p in KINDS:
    bookkeeping(_k, _p)
