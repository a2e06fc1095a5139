"""C16: dependence, similarity and relevance, proved over the contracts of
the views."""
from vf.spec import unit, Stub
from specs.statestubs import S, NAN, StateWorld, StubView

SM = 'cgpm.crosscat.state'
VE = (ValueError,)


@unit('C16', 'columns', [S + '.dependence_probability', S + '.has_output'],
      trials=30)
def _(E):
    """Columns are dependent exactly when they share a view."""
    W = StateWorld(E)
    a = E.pick('a', W.Zv)
    b = E.pick('b', W.Zv) if E.flag('two') else a
    E.ensure_eq('one if the view is the same, else zero',
                W.st.dependence_probability(a, b),
                1. if E.truth(W.z(a) == W.z(b)) else 0.)


for _n in (0, 1, 2, 3):
    @unit('C16', 'pairs of %d' % _n, [S + '.dependence_probability_pairwise'],
          trials=30)
    def _(E, n=_n):
        """The matrix holds the answers for the pairs."""
        W = StateWorld(E, lo=max(n, 1))
        dep = E.func('dep')
        lo = lambda a, b: a if E.truth(a <= b) else b
        hi = lambda a, b: b if E.truth(a <= b) else a
        E.replace(W.st, 'dependence_probability', lambda col0, col1:
                  dep(lo(col0, col1), hi(col0, col1)))
        names = ['a', 'b', 'c'][:n]
        cols = [E.pick(x, W.Zv) for x in names]
        if not E.symbolic:
            cols = [int(c) for c in E.r.permutation(sorted(W.Zv))[:n]]
        for i in range(n):
            for j in range(i):
                E.assume(cols[i] != cols[j])
        D = W.st.dependence_probability_pairwise(cols)
        E.ensure('a square matrix', tuple(D.shape) == (n, n))
        for i in range(n):
            for j in range(n):
                want = 1. if i == j else dep(lo(cols[i], cols[j]),
                                             hi(cols[i], cols[j]))
                E.ensure_eq('the answer for the pair', D[i, j], want)


class Clustered(StubView):
    """A view of which the clusters of the rows are known."""

    def Zr(self, r):
        self.W.E.ensure('a row of the view', r < self.W.rows())
        return self.W.zr(self.v, r)

    def __eq__(self, o):
        return bool(self.v == o.v)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


class Clusters(StateWorld):
    def __init__(self, E, **kw):
        StateWorld.__init__(self, E, **kw)
        self.zr = E.func('zr', sort='int')
        if not E.symbolic:
            f = self.zr
            self.zr = lambda v, r: f(v, r) % 3
        self.more = 0

    def view(self, v):
        return Clustered(self, v)

    def rows(self):
        return self.n + self.more

    def row(self, name):
        r = self.E.int(name, lo=0)
        if not self.E.symbolic:
            r = r % self.n
        self.E.assume(r < self.n)
        return r


for _n in (1, 2, 3):
    @unit('C16', 'similarity over %d columns' % _n, [
        S + '.row_similarity', S + '.view_for'], trials=40)
    def _(E, n=_n):
        """The share of the views of the columns in which two rows share a
        cluster."""
        W = Clusters(E)
        cols = [E.pick('c%d' % i, W.Zv) for i in range(n)]
        r0, r1 = W.row('r0'), W.row('r1')
        got = W.st.row_similarity(r0, r1, cols)
        vs = []
        for c in cols:
            if not any(E.truth(W.z(c) == v) for v in vs):
                vs.append(W.z(c))
        same = [1 if E.truth(W.zr(v, r0) == W.zr(v, r1)) else 0 for v in vs]
        E.ensure_eq('the share of the views', got * len(vs), float(sum(same)))


@unit('C16', 'similarity of rows', [S + '.row_similarity_pairwise'],
      trials=30)
def _(E):
    W = StateWorld(E)
    n = E.choice('n', [1, 2, 3])
    sim = E.func('sim')
    E.replace(W.st, 'n_rows', lambda: n)
    cols = E.choice('cols', [None, 'one'])
    if cols:
        cols = [E.pick('c', W.Zv)]

    def one(row0, row1, cols_):
        E.ensure('of the chosen columns', cols_ is cols or (
            cols is None and cols_ is W.st.outputs))
        return sim(min(row0, row1), max(row0, row1))
    E.replace(W.st, 'row_similarity', lambda row0, row1, cols:
              one(row0, row1, cols))
    M = W.st.row_similarity_pairwise(cols)
    E.ensure('a square matrix', tuple(M.shape) == (n, n))
    for i in range(n):
        for j in range(n):
            E.ensure_eq('the similarity of the pair', M[i, j],
                        1. if i == j else sim(min(i, j), max(i, j)))


for _q, _h, _case in [
        (q, h, c) for q in (0, 1, 2) for h in (0, 1, 2)
        for c in ((None,) if h < 2 or not q else ('t', 'f') if q == 1
                  else ('tt', 'tf', 'f'))]:
        @unit('C16', 'relevance/%d rows, %d hypothetical%s' % (
            _q, _h, '' if _case is None else
            '/shared by %s' % _case),
              [S + '.relevance_probability'], trials=40)
        def _(E, q=_q, h=_h, case=_case):
            """Whether the row shares the cluster of every query row and of
            every hypothetical row, which leave no trace."""
            W = Clusters(E)
            st = W.st
            col = E.pick('col', W.Zv)
            view = W.z(col)
            target = W.row('target')
            query = [W.row('q%d' % i) for i in range(q)]
            for r, x in zip(query, case or ''):
                E.assume((W.zr(view, target) == W.zr(view, r)) == (x == 't'))
            given = list(query)
            hyps, rows = [], []
            for i in range(h):
                x = E.func('hyp%d' % i)
                names = E.part_of('in hyp%d' % i, W.Zv, lambda c: x(c))
                hyps.append(names)
            log = []
            E.events = []

            def incorporate(v, rowid, observation):
                E.ensure_eq('the hypothetical rows enter the view of the '
                            'column', v.v, view)
                E.ensure_eq('after the rows of the table', rowid, W.n
                            + W.more)
                W.more += 1
                log.append(('in', rowid, observation))

            def unincorporate(v, rowid):
                E.ensure_eq('the last row is removed', rowid, W.n + W.more
                            - 1)
                E.ensure_eq('from the view of the column', v.v, view)
                W.more -= 1
                log.append(('out', rowid))
            W.on_incorporate = lambda v, r, o: incorporate(v, r, o)
            W.on_unincorporate = lambda v, r: unincorporate(v, r)
            got = st.relevance_probability(
                target, query, col, E.choice('none', [None, []])
                if h == 0 else hyps)
            E.ensure('the query rows are not changed', query == given)
            E.ensure('the hypothetical rows are gone', not W.more)
            used = [l for l in log if l[0] == 'in']
            rows = query + [l[1] for l in used]
            want = bool(rows) and all(
                E.truth(W.zr(view, target) == W.zr(view, r)) for r in rows)
            E.ensure_eq('one exactly if all share the cluster', got,
                        1 if want else 0)
            # a hypothetical row without a cell of the view says nothing
            c = E.pick('c', W.Zv)
            E.assume(W.z(c) == view)
            for m in hyps[:1] if h == 1 else []:
                if E.has(m, c):
                    E.ensure('a row with a cell of the view counts', used)
                some = E.length(E.submap(m, lambda c: E.eq(W.z(c), view)))
                E.ensure('a row without one does not', used or
                         E.truth(some == 0))
                E.ensure('a row with one does', not used or
                         E.truth(some > 0))
            if len(used) == h:
                for m, l in zip(hyps, used):
                    E.ensure('a hypothetical row has its own cell',
                             E.same(l[2][c], m[c] if E.has(m, c) else NAN))
                    E.ensure_eq('and a cell for each column of the view',
                                E.length(l[2]), W.st.Nv(view))
            if not used:
                E.ensure('the table is not touched', not E.events)
            d = E.pick('d', W.Zv)
            mine = E.truth(W.z(d) == view)
            n = len(used) if mine else 0
            E.ensure('a column of the view holds the hypothetical cells, '
                     'another does not', len(W.written(d, 'append')) == n)
            E.ensure('and forgets each of them',
                     len(W.written(d, 'pop')) == n)


# --------------------------------------------------------------------------
# Outputs of hooked models.

class Wired(Stub):
    """The model i of an arbitrary collection: its outputs are the variables
    assigned to it."""

    def __init__(self, E, V, model, i):
        self.E, self.V, self.model, self.i = E, V, model, i
        self.outputs = E.keys(E.submap(
            V, lambda v: E.eq(model(v), i), lambda v: 0))
        self.inputs = []

    def _vf_subst(self, pairs):
        from vf import coll
        return Wired(self.E, self.V, self.model, coll.subst(self.i, pairs))


for _k0 in ('column', 'hooked'):
    for _k1 in ('column', 'hooked'):
        @unit('C16', 'dependence/%s and %s' % (_k0, _k1), [
            S + '._dependence_probability_composite'], trials=60)
        def _(E, k0=_k0, k1=_k1):
            """Dependent exactly when a model (a view among them) of the one
            or of its ancestors is a model of the other or of its ancestors.
            Over the contracts of the functions that find the ancestors and
            the model of a variable: any number of models and variables."""
            n = E.size('models', lo=1, hi=4)
            f = E.func('model', sort='int')
            model = f if E.symbolic else lambda v: f(v) % n
            shift = E.int('shift', lo=-2, hi=2)
            column = E.func('column', sort='int')
            V = E.map('variables', lambda v: model(v), lo=1)
            E.assume_each(V, lambda v: E.And(model(v) >= 0, model(v) < n))
            Zv = E.submap(V, lambda v: column(v) > 0,
                          lambda v: model(v) - shift)
            q = []
            for i, k in enumerate((k0, k1)):
                q.append(E.pick('q%d' % i, E.submap(
                    V, (lambda v: column(v) > 0) if k == 'column' else
                    (lambda v: column(v) <= 0), lambda v: 0)))
            up = []
            for i in (0, 1):
                g = E.func('ancestor%d' % i, sort='int')
                up.append(E.submap(V, lambda v, g=g: g(v) > 0, lambda v: 0))
            if not E.symbolic and q[0] == q[1]:
                up[1] = up[0]
            cgpms = E.table('cgpms', n, lambda i: Wired(E, V, model, i))

            def ancestors(c, v):
                E.ensure('the ancestors in the network', c is cgpms)
                if v is q[0] or not E.symbolic and v == q[0]:
                    return E.keys(up[0]) if k0 == 'hooked' else []
                E.ensure_eq('the ancestors of a variable of the query', v,
                            q[1])
                return E.keys(up[1]) if k1 == 'hooked' else []
            E.patch(SM + ':retrieve_ancestors', ancestors)
            E.patch(SM + ':retrieve_variable_to_cgpm', lambda c: E.copy(V))
            mine = [[q[i]] if k == 'column' else E.keys(up[i]) + [q[i]]
                    for i, k in enumerate((k0, k1))]
            shared = E.any(E.mapped(lambda a: E.any(E.mapped(
                lambda b: E.eq(model(a), model(b)), mine[1])), mine[0]))
            got = E.get(S)._dependence_probability_composite(
                cgpms, Zv, q[0], q[1])
            E.ensure_eq('dependent exactly with a common ancestral model',
                        got, 1. if shared else 0.)


@unit('C16', 'dependence/dispatch', [S + '.dependence_probability',
                                     S + '.has_output'], trials=40)
def _(E):
    """Unless both variables are columns, the network of the views and the
    hooked models decides, given the partition of the columns."""
    W = StateWorld(E)
    st = W.st
    a = E.pick('column', W.Zv)
    b = E.int('foreign')
    E.assume(E.Not(E.has(W.Zv, b)))
    c = E.int('other')
    E.assume(E.Not(E.has(W.Zv, c)))
    x, y = E.choice('pair', [(a, b), (b, a), (b, c)])
    models = Stub()
    E.replace(st, 'build_cgpms', lambda: models)
    log = []

    def composite(cgpms, Zv, col0, col1):
        log.append((cgpms, Zv, col0, col1))
        return 'answer'
    E.patch(S + '._dependence_probability_composite', staticmethod(composite))
    E.ensure('the answer of the network',
             st.dependence_probability(x, y) == 'answer' and len(log) == 1)
    got = log[0]
    E.ensure('over all models', got[0] is models)
    E.same_maps('the partition of the columns', got[1], W.Zv)
    E.ensure_eq('the variables', got[2], x)
    E.ensure_eq('the variables', got[3], y)
