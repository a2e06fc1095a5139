"""A State over the contracts of its parts: any number of columns, rows and
views; the partition of the columns is a real component, the views and the
table are arbitrary parts of which only the contract is known."""

from vf.spec import Stub
from specs.viewstubs import with_names

S = 'cgpm.crosscat.state:State'
D = 'cgpm.mixtures.dim:Dim'
CRP, BASE = 5 ** 8, 10 ** 7        # names of the cluster variables
NAN = float('nan')


class Cells(Stub):
    """The cells of a column: the table's, then the appended ones."""
    _vf_events = True

    def __init__(self, W, c):
        self.W, self.c = W, c

    def append(self, v):
        self.W.E.event('append', self.c, v)

    def pop(self, *a):
        self.W.E.ensure('the last cell is removed', not a)
        self.W.E.event('pop', self.c)

    def __setitem__(self, r, v):
        self.W.E.event('set', self.c, (r, v))

    def __getitem__(self, r):
        W = self.W
        hit = [p for p in W.written(self.c, 'set') if p[0] == r]
        if hit:
            return hit[-1][1]
        new = W.written(self.c, 'append')
        if len(new) > 1:
            W.E.ensure('a column gets one cell', False)
        if new and r == W.n:
            return new[0]
        if not r < W.n:
            raise IndexError('list index out of range')
        return W.cell(self.c, r)

    def _vf_len(self):
        W = self.W
        return (W.n + len(W.written(self.c, 'append'))
                - len(W.written(self.c, 'pop')))

    __len__ = _vf_len

    def _vf_subst(self, pairs):
        from vf import coll
        return Cells(self.W, coll.subst(self.c, pairs))


class Table(Stub):
    def __init__(self, W):
        self.W, self.new = W, []

    def __getitem__(self, c):
        for k, cells in self.new:
            if k == c:
                return cells
        if c not in self.W.Zv:
            raise KeyError(c)
        return Cells(self.W, c)

    def __contains__(self, c):
        return any(k == c for k, _ in self.new) or c in self.W.Zv

    def keys(self):
        return self.W.Zv.keys()

    def __setitem__(self, c, cells):
        self.new.append((c, cells))

    def __delitem__(self, c):
        self.W.E.event('forget', c)


class StateWorld(Stub):
    """An arbitrary state and the handles of its parts."""

    def __init__(self, E, lo=1, Cd=None, Ci=None, names=None):
        self.E = E
        W = self
        st = self.st = E.bare(E.get(S))
        self.cell = E.cells('X')
        self.vscore, self.vlike = E.func('vscore'), E.func('vlike')
        self.n = E.size('rows', lo=1)
        z = self.z = E.func('Zv', sort='int')
        if not E.symbolic:
            z = self.z = lambda c, z=z: z(c) % 4
        self.Zv = E.map('cols', z, lo=lo, keys=with_names(E, names))
        for n in names or ():
            E.assume(n in self.Zv)
        E.assume_each(self.Zv, lambda c: E.And(c >= 0, c < CRP, z(c) >= 0))
        st.rng = E.rng()
        st.crp = self.partition(E, st.rng)
        E.assume_each(st.crp.clusters[0].counts, lambda v: v >= 0)
        st.crp_id, st.crp_id_view = CRP, BASE
        st.outputs = E.keys(self.Zv)
        st.outputs_set = E.keyset(self.Zv)
        st.X = Table(self)
        st.inputs = []
        st.Cd, st.Ci, st.Rd, st.Ri = Cd or [], Ci or [], {}, {}
        self.viewf = lambda v: self.view(v)
        st.views = E.objects_over(st.crp.clusters[0].counts, 'views',
                                  self.view)
        self.views = st.views
        st.hooked_cgpms = {}
        st._composite = False
        st.diagnostics = {'iterations': {}}

    def partition(self, E, rng):
        a = E.real('alpha', lo=0)
        crp = E.get(D)([CRP], [-1], cctype='crp', hypers={'alpha': a},
                       rng=rng)
        c = crp.clusters[0] = crp.aux_model
        if E.symbolic:
            c.data, c.N = self.Zv, E.length(self.Zv)
            c.counts = E.index(self.Zv)
            crp.Zr = E.map_over(self.Zv, lambda r: 0)
            crp.Zi = E.empty_map()
            # an independent description of the partition
            self.Zv = self.Zv.clone()
        else:
            for r in sorted(self.Zv):
                c.incorporate(r, {CRP: self.Zv[r]})
                crp.Zr[r] = 0
        crp.aux_model = crp.create_aux_model()
        return crp

    def view(self, v):
        return StubView(self, v)

    def dim(self, c):
        return StubDim(self, c)

    def conditional(self, c):
        return False

    def written(self, c, kind):
        """What the events of the kind wrote to the column c."""
        from vf import coll, sym
        out = []
        for e in self.E.events or ():
            if e[0] != kind:
                continue
            if not self.E.symbolic or not e[3]:
                if e[1] == c:
                    out.append(e[2])
                continue
            import z3
            pairs = [(e[3][0], sym.int_term(c))]
            if len(e[3]) > 1 or not sym.int_term(e[1]).eq(e[3][0]):
                raise sym.Unsupported('an event of another shape')
            if sym.cur().decide(z3.substitute(e[4], *pairs)):
                out.append(coll.subst(e[2], pairs) if e[2] is not None
                           else None)
        return out


class StubView(Stub):
    """A view of the state: its columns are those assigned to it."""

    def __init__(self, W, v):
        self.W, self.v = W, v
        self.outputs = [BASE + v]
        self.dims = W.E.submap(W.Zv, lambda c: W.E.eq(W.z(c), v),
                               lambda c: W.dim(c))

    def incorporate(self, rowid, observation, inputs=None):
        self.W.E.event('incorporate', self.v)
        self.W.on_incorporate(self, rowid, observation)

    def unincorporate(self, rowid):
        self.W.E.event('unincorporate', self.v)
        self.W.on_unincorporate(self, rowid)

    def force_cell(self, rowid, observation):
        self.W.E.event('force', self.v)
        self.W.on_force(self, rowid, observation)

    def logpdf_score(self):
        self.W.E.event('score', self.v)
        return self.W.vscore(self.v)

    def logpdf_likelihood(self):
        self.W.E.event('likelihood', self.v)
        return self.W.vlike(self.v)

    def incorporate_dim(self, dim, reassign=True):
        return self.W.on_incorporate_dim(self, dim, reassign)

    def unincorporate_dim(self, dim):
        return self.W.on_unincorporate_dim(self, dim)

    def update_cctype(self, col, cctype, distargs=None):
        self.W.E.event('cctype', col, (cctype, distargs))
        self.W.E.ensure_eq('the view of the column', self.v,
                           self.W.z(col))

    def transition_crp_alpha(self):
        self.W.E.event('alpha', self.v)

    def transition_rows(self, rows=None):
        self.W.E.event('rows', self.v, rows)


class StubDim(Stub):
    def __init__(self, W, c):
        self.W, self.c, self.index = W, c, c
        self.outputs = [c]

    def _vf_subst(self, pairs):
        from vf import coll
        return StubDim(self.W, coll.subst(self.c, pairs))

    def is_conditional(self):
        return self.W.conditional(self.c)

    def transition_params(self):
        self.W.E.event('params', self.c)

    def transition_hypers(self):
        self.W.E.event('hypers', self.c)

    def transition_hyper_grids(self, X, n_grid=30):
        self.W.E.ensure('the grids are made from the column',
                        isinstance(X, Cells))
        self.W.E.ensure_eq('the grids are made from the column', X.c, self.c)
        self.W.E.event('grids', self.c)
