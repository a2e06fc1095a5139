"""C17: the relevance probability, proved over the contract of a view."""
from vf.spec import unit, Stub
from specs.viewstubs import Z, Table, VW, with_names
from specs.contracts import draw_contracts

R = 'cgpm.mixtures.relevance:'


class Rows(Stub):
    """A view of which the joint density of the moved rows is an arbitrary
    function of their clusters."""

    def __init__(self, E, nq, names=None):
        self.E = E
        self.cols = E.map('cols', lambda c: 0, lo=0)
        E.assume(Z not in self.cols)
        self.outputs = [Z] + (self.cols.keys() if E.symbolic
                              else sorted(self.cols))
        self.x = E.func('X')
        self.X = Table(self.x)
        self.ids = [E.int('target', lo=0)] + [
            E.int('query', lo=0) for _ in range(nq)]
        if not E.symbolic:
            self.ids = [int(i) for i in E.r.permutation(9)[:nq + 1]]
        for i in range(nq + 1):
            for j in range(i):
                E.assume(self.ids[i] != self.ids[j])
        self.home = [E.int('home', lo=0) for _ in self.ids]
        self.held = list(self.home)
        self.pred = E.func('pred')
        self.target, self.query = self.ids[0], self.ids[1:]

    def which(self, rowid):
        for i, r in enumerate(self.ids):
            if self.E.truth(self.E.eq(rowid, r)):
                return i
        self.E.ensure('only the target and the query rows are moved', False)

    def state(self):
        return tuple(-1 if z is None else z for z in self.held)

    def out(self):
        self.held = [None] * len(self.held)

    def Zr(self, rowid):
        i = self.which(rowid)
        self.E.ensure('the cluster of a row that is in the view',
                      self.held[i] is not None)
        return self.held[i]

    def incorporate(self, rowid, observation):
        i = self.which(rowid)
        self.E.ensure('a row enters once', self.held[i] is None)
        self.cells(observation, rowid, 1)
        self.held[i] = observation[Z]

    def unincorporate(self, rowid):
        i = self.which(rowid)
        self.E.ensure('a row that is in the view leaves it',
                      self.held[i] is not None)
        self.held[i] = None

    def cells(self, got, rowid, more):
        E = self.E
        E.ensure_eq('the cells of the view', E.length(got),
                    E.length(self.cols) + more)
        E.ensure('the cluster is named or not', (Z in got) == bool(more))
        if E.symbolic or self.cols:
            c = E.pick('c', self.cols)
            E.ensure_eq('a row keeps its cells', got[c], self.x(c, rowid))

    def logpdf(self, rowid, targets):
        self.E.ensure_eq('the density of a new row', rowid, -1)
        self.cells(targets, self.target, 0)
        return self.pred(*self.state())

    def values(self, i):
        r = self.ids[i]
        return self.E.map_over(self.cols, lambda c: self.x(c, r))


@unit('C17', 'values', [R + 'row_values'], trials=20)
def _(E):
    W = Rows(E, 0)
    got = E.get(R + 'row_values')(W, W.target)
    W.cells(got, W.target, 0)


for _q in (1, 2, 3):
    @unit('C17', 'joint/%d rows' % _q, [R + 'logpdf_assignments'], trials=20)
    def _(E, q=_q):
        """The score with the target and the query rows in two clusters."""
        W = Rows(E, q)
        G = E.func('score')
        E.patch(R + 'get_view_logpdf_score', lambda view, table_target,
                table_query: G(table_target, table_query, *view.state()))
        W.out()
        kt, kq = E.int('kt', lo=0), E.int('kq', lo=0)
        vt, vq = W.values(0), [W.values(i + 1) for i in range(q)]
        got = E.get(R + 'logpdf_assignments')(
            W, W.target, W.query, vt, vq, kt, kq)
        E.ensure_eq('the score with the rows in their clusters', got,
                    G(kt, kq, kt, *[kq] * q))
        E.ensure('the rows are out again', W.state() == (-1,) * (q + 1))
        for i, v in enumerate([vt] + vq):
            W.cells(v, W.ids[i], 0)

    @unit('C17', 'marginal/%d rows' % _q, [
        R + 'logpdf_assignments_marginalize_target'], trials=20)
    def _(E, q=_q):
        """The score with the query rows in a cluster, times the predictive
        density of the target."""
        W = Rows(E, q)
        G = E.func('score')
        E.patch(R + 'get_view_logpdf_score', lambda view, table_target,
                table_query: G(table_target, table_query, *view.state()))
        W.out()
        kq = E.int('kq', lo=0)
        vt, vq = W.values(0), [W.values(i + 1) for i in range(q)]
        got = E.get(R + 'logpdf_assignments_marginalize_target')(
            W, W.query, W.query, vt, vq, kq)
        E.ensure_eq('score of the query rows plus predictive of the target',
                    got, G(kq, kq, -1, *[kq] * q) + W.pred(-1, *[kq] * q))
        E.ensure('the rows are out again', W.state() == (-1,) * (q + 1))
        for i, v in enumerate([vt] + vq):
            W.cells(v, W.ids[i], 0)


class Part(Stub):
    def __init__(self, v):
        self.v = v

    def logpdf_score(self):
        return self.v


class Parts(Stub):
    def __init__(self, f, c):
        self.f, self.c = f, c

    def __getitem__(self, k):
        return Part(self.f(self.c, k))


@unit('C17', 'scores', [R + 'get_view_logpdf_score',
                        R + 'get_cluster_logpdf_score'], trials=60)
def _(E):
    """The score of the row partition plus those of the two clusters in every
    column; a cluster without rows has none."""
    part = E.func('part')

    class Dimension(Stub):
        def __init__(self, c):
            self.c = c
            self.clusters = Parts(part, c)
    view = Stub()
    view.dims = E.objects('dims', Dimension)
    counts = E.map('counts', lambda k: E.int('n', lo=1),
                   keys=None if E.symbolic else [1, 2, 3][
                       :int(E.r.randint(4))])
    prior = E.real('prior')
    view.crp = Part(prior)
    held = Stub()
    held.counts = counts
    view.crp.clusters = {0: held}
    kt = E.int('kt', lo=0, hi=5)
    kq = E.int('kq', lo=0, hi=5)

    def score(k):
        if not E.truth(k in counts):
            return 0.
        return E.fold(view.dims, lambda c, d: part(c, k))
    want = prior + score(kq)
    if E.truth(kt != kq):
        want = want + score(kt)
    E.ensure_eq('the restricted score', E.get(
        R + 'get_view_logpdf_score')(view, kt, kq), want)


for _q in (1, 2, 3):
    @unit('C17', 'ratio/%d rows' % _q, [R + 'relevance_probability',
                                        R + 'get_tables_same'], trials=20)
    def _(E, q=_q):
        """The mass of the target in the cluster of the query rows, summed
        over the clusters (and a fresh one), over the mass of the query rows
        in one cluster and the target anywhere; every row is restored."""
        draw_contracts(E)
        W = Rows(E, q)
        counts = E.map('counts', lambda k: E.int('n', lo=1))
        E.assume_each(counts, lambda k: k >= 0)
        held = Stub()
        held.counts = counts
        W.crp = Stub()
        W.crp.clusters = {0: held}
        base, joint, marg = E.func('base'), E.func('joint'), E.func('marg')

        def moved():
            E.ensure('the base is without the rows',
                     W.state() == (-1,) * (q + 1))

        def scored(view, table_target, table_query):
            moved()
            E.ensure_eq('the base of one cluster', table_target, table_query)
            return base(table_query)

        def values(vt, vq):
            E.ensure('as many query rows', len(vq) == q)
            for i, v in enumerate([vt] + list(vq)):
                W.cells(v, W.ids[i], 0)

        def assign(view, rowid_target, rowid_query, values_target,
                   values_query, table_target, table_query):
            moved()
            E.ensure_eq('the target', rowid_target, W.target)
            E.ensure('the query', list(rowid_query) == W.query)
            values(values_target, values_query)
            return joint(table_target, table_query)

        def marginal(view, rowid_target, rowid_query, values_target,
                     values_query, table_query):
            moved()
            E.ensure('the query', list(rowid_query) == W.query)
            values(values_target, values_query)
            return marg(table_query)
        E.patch(R + 'get_view_logpdf_score', scored)
        E.patch(R + 'logpdf_assignments', assign)
        E.patch(R + 'logpdf_assignments_marginalize_target', marginal)
        if E.symbolic:
            K = counts.keys()
            fresh = (max_of(E, counts) + 1) if E.truth(
                E.length(counts) > 0) else 0
        else:
            K = sorted(counts)
            fresh = max(K) + 1 if K else 0
        K = K + [fresh]
        given = list(W.query)
        got = E.get(R + 'relevance_probability')(W, W.target, W.query)
        lse = E.get('cgpm.utils.general:logsumexp')
        num = lse(E.mapped(lambda k: joint(k, k) - base(k), K))
        den = lse(E.mapped(lambda k: marg(k) - base(k), K))
        E.ensure_eq('the ratio of the two masses', got, E.get(
            R + 'np').exp(num - den))
        E.ensure('the query is not changed', W.query == given)
        for i in range(q + 1):
            E.ensure_eq('every row is back in its cluster', W.held[i],
                        W.home[i])


def max_of(E, m):
    from vf import coll
    return coll.fold_max(m.keys())


@unit('C17', 'corner', [R + 'relevance_probability'], trials=20)
def _(E):
    W = Rows(E, 2)
    f = E.get(R + 'relevance_probability')
    E.raises((ValueError,), lambda: f(W, W.target, []), 'no query rows')
    E.ensure_eq('a target among the query rows', f(
        W, W.target, E.choice('at', [[W.target], [W.ids[1], W.target],
                                     [W.target, W.ids[2]]])), 1.)
    E.ensure('nothing is moved', W.held == W.home)


@unit('C17', 'delegation', [VW + '.relevance_probability'], trials=20)
def _(E):
    W = Rows(E, 1)
    v = E.bare(E.get(VW))
    v.outputs = W.outputs
    p = E.real('p')
    seen = []

    def rel(view, rowid_target, rowid_query):
        seen.append((view, rowid_target, rowid_query))
        return p
    E.patch('cgpm.mixtures.relevance:relevance_probability', rel)
    if E.symbolic or W.cols:
        col = E.pick('col', W.cols)
        E.ensure_eq('the answer', v.relevance_probability(
            W.target, W.query, col), p)
        E.ensure('the question', len(seen) == 1 and seen[0][0] is v
                 and seen[0][1] is W.target and seen[0][2] is W.query)
    c = E.int('other')
    E.assume(E.Not(E.has(W.cols, c)))
    E.assume(c != Z)
    E.raises((ValueError,), lambda: v.relevance_probability(
        W.target, W.query, c), 'a column of another view')
