"""A View over the contracts of its parts: any number of columns, each an
arbitrary column (Dim) of which only the contract is known, and a real row
partition over any number of rows and clusters."""

from vf.spec import Stub

V = 'cgpm.mixtures.view'
VW = V + ':View'
D = 'cgpm.mixtures.dim:Dim'
Z = 1009            # the name of the cluster variable
ALPHA = 'alpha'


class Column(Stub):
    """A column of the table: its value at a row is arbitrary."""

    def __init__(self, f, c, n=None):
        self.f, self.c, self.n = f, c, n

    def __getitem__(self, r):
        return self.f(self.c, r)

    def _vf_subst(self, pairs):
        from vf import coll
        return Column(self.f, coll.subst(self.c, pairs), self.n)


class Table(Stub):
    def __init__(self, f):
        self.f = f

    def __getitem__(self, c):
        return Column(self.f, c)


class Forget(Stub):
    """The clusters of a stub column: only their removal is recorded."""

    def __init__(self, E, key):
        self.E, self.key = E, key

    def __delitem__(self, k):
        self.E.event('drop', self.key, k)

    def pop(self, k, *d):
        self.E.event('drop', self.key, k)


def with_names(E, names):
    """The keys of an arbitrary map that has the names (in a concrete run)."""
    if names is None or E.symbolic:
        return None
    return sorted(set(names) | set(
        E.r.choice([2, 5, 40, 300], size=E.r.randint(4)).tolist()))


class World(Stub):
    """An arbitrary view and the handles of its parts."""

    def __init__(self, E, ninputs=0, lo=0, rows=0, missing=False,
                 names=None):
        self.E = E
        self.X = E.cells('X') if missing else E.func('X')
        self.score = E.func('dim_score')
        self.ninputs = ninputs
        self.in1 = E.func('in1', sort='int')
        self.in2 = E.func('in2', sort='int')
        self.view = E.bare(E.get(VW))
        v = self.view
        W = self

        class StubDim(Stub):
            def __init__(self, key):
                self.index = key
                self.outputs = [key]
                self.inputs = [Z] + [self_in(key) for self_in in
                                     (W.in1, W.in2)[:ninputs]]
                self.clusters = Forget(E, key)
                self.distargs = {}
                self.hypers = {}
                self.cctype = 'stub'

            def get_distargs(self):
                return {}

            def is_conditional(self):
                return ninputs > 0

            def logpdf_score(self):
                E.event('score', self.index)
                return W.score(self.index)

            def incorporate(self, rowid, observation, inputs=None):
                W.on_incorporate(self, rowid, observation, inputs)
                E.event('incorporate', self.index)

            def unincorporate(self, rowid):
                E.ensure_eq('the row is removed from a column', rowid,
                            W.row)
                E.event('unincorporate', self.index)

            def logpdf(self, rowid, targets, constraints=None, inputs=None):
                return W.on_logpdf(self, rowid, targets, constraints, inputs)

            def transition_hypers(self):
                E.event('hypers', self.index)

            def transition_hyper_grids(self, X, n_grid=30):
                E.ensure('the grids are made from the column',
                         isinstance(X, Column))
                E.ensure_eq('the grids are made from the column', X.c,
                            self.index)
                E.event('grids', self.index)

            def transition_params(self):
                E.event('params', self.index)
        self.StubDim = StubDim
        self.dims = E.objects('dims', StubDim, lo=lo,
                              keys=with_names(E, names))
        for n in names or ():
            E.assume(n in self.dims)
        E.assume(Z not in self.dims)
        if ninputs:
            E.assume_each(self.dims, lambda c: E.And(
                *[f(c) != Z for f in (self.in1, self.in2)[:ninputs]]))
        v.dims = self.dims
        v.inputs = []
        v.X = Table(self.X)
        v.rng = E.rng()
        v.crp = self.crp(E, v.rng, rows)
        v.outputs = [Z] + self.dims.keys() if E.symbolic else \
            [Z] + list(self.dims)

    def crp(self, E, rng, rows):
        """The real component, holding any partition of any rows."""
        a = E.real('alpha', lo=0)
        crp = E.get(D)([Z], [-1], cctype='crp', hypers={'alpha': a}, rng=rng)
        c = crp.clusters[0] = crp.aux_model
        keys = None
        if not E.symbolic and E.r.randint(2):
            keys = range(int(E.r.randint(max(rows, 1), 7)))
        data = E.map('Zr', lambda k: E.int('z', lo=0), lo=rows, keys=keys)
        if E.symbolic:
            c.data, c.N = data, E.length(data)
            c.counts = E.index(data)
        else:
            for r in sorted(data):
                c.incorporate(r, {Z: data[r]})
        for r in (data if not E.symbolic else ()):
            crp.Zr[r] = 0
        if E.symbolic:
            crp.Zr = E.map_over(data, lambda r: 0)
            crp.Zi = E.empty_map()
        crp.aux_model = crp.create_aux_model()
        return crp

    def inputs_of(self, c, row, k):
        d = self.E.dict([(Z, k)])
        for f in (self.in1, self.in2)[:self.ninputs]:
            d[f(c)] = self.X(f(c), row)
        return d

    def same_dict(self, name, got, want):
        E = self.E
        E.ensure(name + ' (names)', len(got) == len(want) and all(
            k in got for k in want), (got, want))
        for k in want:
            E.ensure_eq(name, got[k], want[k])
