"""C09: queries of a view, proved over the contract of its network and of its
row partition."""
from vf import sym
from vf.spec import unit, Stub
from specs.contracts import draw_contracts
from specs.viewstubs import World, VW, Z

A, B, C_ = 101, 102, 103       # columns of the query


class Net(Stub):
    """The network of the columns given the cluster: J(S, k) is the log of
    the joint density of the cells S of the query and of the cluster k; every
    query of it follows by the definition of conditional density."""

    def __init__(self, E, values, inputs):
        self.E, self.values, self.want_inputs = E, values, inputs
        self.f = {}
        self.calls = []

    def J(self, names, k):
        n = tuple(sorted(names))
        if n not in self.f:
            self.f[n] = self.E.func('J' + '_'.join(map(str, n)))
        return self.f[n](k)

    def split(self, d, what):
        k = None
        names = []
        for key in (d or {}):
            if key == Z:
                k = d[key]
            else:
                self.E.ensure('the network is asked about the query only',
                              key in self.values, key)
                self.E.ensure_eq('the network is asked about the values of '
                                 'the query', d[key], self.values[key])
                names.append(key)
        return names, k

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        E = self.E
        E.ensure('a new row is asked about', rowid is None or rowid == -1)
        T, kt = self.split(targets, 'targets')
        C, kc = self.split(constraints, 'constraints')
        E.ensure('the query is well formed',
                 not set(T) & set(C) and (kt is None or kc is None))
        if kc is not None:
            return self.J(T + C, kc) - self.J(C, kc)
        E.ensure('only a given cluster makes the columns independent',
                 kt is not None and not C, (targets, constraints))
        return self.J(T, kt)


class Tables(Stub):
    """The tables for a new row and their probabilities (C06)."""

    def __init__(self, E, K, data, counts):
        self.E, self.K, self.data, self.counts = E, K, data, counts

    def gibbs_tables(self, rowid, m=1):
        self.E.ensure('the tables of a new row', rowid not in self.data)
        self.E.ensure_eq('one fresh table', m, 1)
        return self.K


def world(E, targets, constraints, net=Net):
    """A view, a query and the contract of the network."""
    W = World(E, 0, rows=0)
    v = W.view
    E.assume(-1 not in v.crp.clusters[0].data)
    values = dict((n, E.real('x%d' % n)) for n in targets + constraints)
    net = net(E, values, None)
    m = E.size('tables', lo=1)
    table = E.func('table', sort='int', lo=0)
    K = E.table('K', m, table)
    real = v.crp
    v.crp = Stub()
    v.crp.clusters = {0: Tables(E, K, real.clusters[0].data,
                                real.clusters[0].counts)}
    v.crp.hypers = real.hypers
    E.replace(v, 'build_network', lambda: net)
    E.replace(v, '_populate_constraints',
              lambda rowid, targets, constraints: constraints or {})
    return W, v, net, K, values


def mix(E, net, K, names):
    """The log of the density of the cells, the cluster summed out."""
    return E.log(E.sum(E.mapped(lambda k: E.exp(net.J(names, k)), K)))


CASES = [(t, c) for t in ([A], [A, B]) for c in ([], [C_])]
for _t, _c in CASES:
    _name = '%dx%d' % (len(_t), len(_c))

    @unit('C09', 'logpdf/marginal/' + _name, [VW + '.logpdf'], trials=20)
    def _(E, t=_t, c=_c):
        """The cluster is summed out with its posterior given the
        constraints."""
        W, v, net, K, x = world(E, t, c)
        got = v.logpdf(None, dict((n, x[n]) for n in t),
                       dict((n, x[n]) for n in c))
        E.ensure_eq('the density of the mixture', got,
                    mix(E, net, K, t + c) - mix(E, net, K, c))

    @unit('C09', 'logpdf/given cluster/' + _name, [VW + '.logpdf'],
          trials=10)
    def _(E, t=_t, c=_c):
        W, v, net, K, x = world(E, t, c)
        k = E.int('k', lo=0)
        cs = dict((n, x[n]) for n in c)
        cs[Z] = k
        got = v.logpdf(None, dict((n, x[n]) for n in t), cs)
        E.ensure_eq('the density given the cluster', got,
                    net.J(t + c, k) - net.J(c, k))

    @unit('C09', 'logpdf/cluster/' + _name, [VW + '.logpdf'], trials=20)
    def _(E, t=_t, c=_c):
        """(The mass of the tables, mix([]), is zero in logs by C06.)"""
        W, v, net, K, x = world(E, t, c)
        k = E.int('k', lo=0)
        ts = dict((n, x[n]) for n in t)
        ts[Z] = k
        got = v.logpdf(None, ts, dict((n, x[n]) for n in c))
        E.ensure_eq('the joint density with the cluster', got,
                    net.J(t + c, k) - mix(E, net, K, c) +
                    mix(E, net, K, []))



class Sampling(Net):
    """simulate: an arbitrary sample of the network's joint distribution
    given the constraints, per call."""

    def simulate(self, rowid, targets, constraints=None, inputs=None,
                 N=None):
        E = self.E
        C, k = self.split(constraints, 'constraints')
        E.ensure('the query is sampled', Z not in targets and all(
            t in self.values for t in targets) and not set(targets) & set(C))
        E.ensure('one sample is asked for', N is None or N == 1, N)
        s = dict((t, E.real('s%d' % t)) for t in targets)
        self.calls.append((rowid, list(targets), C, k, inputs, s))
        return s if N is None else [s]


for _t, _c in CASES:
    @unit('C09', 'observed/%dx%d' % (len(_t), len(_c)),
          [VW + '.logpdf', VW + '.simulate'], trials=10)
    def _(E, t=_t, c=_c):
        """An observed row is a new row with its cells and its cluster."""
        W, v, net, K, x = world(E, t, c, Sampling)
        r = E.int('row', lo=0)
        E.assume(r < E.length(v.Zr()))
        k = E.int('k', lo=0)
        asked = []

        def populate(rowid, targets, constraints):
            asked.append((rowid, sorted(targets), constraints))
            d = dict((n, x[n]) for n in c)
            d[Z] = k
            return d
        E.replace(v, '_populate_constraints', populate)
        got = v.logpdf(r, dict((n, x[n]) for n in t))
        E.ensure_eq('the density given its cells and cluster', got,
                    net.J(t + c, k) - net.J(c, k))
        s = v.simulate(r, list(t))
        E.ensure('one sample of the network', len(net.calls) == 1)
        rowid, T, C, kk, inputs, want = net.calls[0]
        E.ensure('of a new row', rowid is None)
        E.ensure('given its cells', sorted(C) == sorted(c))
        E.ensure('given its cluster', kk is not None)
        E.ensure_eq('given its cluster', kk, k)
        W.same_dict('the sample is returned', s, want)
        for rowid, T, C in asked:
            E.ensure_eq('the cells of the row', rowid, r)
            E.ensure('the cells of the row', T == sorted(t) and not C)


for _t, _c in CASES:
    for _z in ('hidden', 'exposed', 'given'):
        @unit('C09', 'simulate/%dx%d/%s' % (len(_t), len(_c), _z),
              [VW + '.simulate'], trials=20)
        def _(E, t=_t, c=_c, z=_z):
            """The cluster is drawn with its probability given the
            constraints, then the targets given the cluster."""
            draw_contracts(E)
            W, v, net, K, x = world(E, t, c, Sampling)
            cs = dict((n, x[n]) for n in c)
            if z == 'given':
                k = cs[Z] = E.int('k', lo=0)
            got = v.simulate(None, t + ([Z] if z == 'exposed' else []), cs)
            draws = v.rng.draws
            if z == 'given':
                E.ensure('the given cluster is not drawn', not draws)
            elif not draws:
                E.ensure_eq('the only table is chosen', E.length(K), 1)
                k = K[0]
            else:
                E.ensure('one draw', len(draws) == 1)
                E.same_law_at('the cluster given the constraints', draws, K,
                              lambda i: net.J(c, K[i]))
                k = E.scalar(draws[0][2])
            E.ensure('one sample of the network', len(net.calls) == 1)
            rowid, T, C, kk, inputs, s = net.calls[0]
            E.ensure('of a new row', rowid is None)
            E.ensure('of the targets', sorted(T) == sorted(t))
            E.ensure('given the constraints', sorted(C) == sorted(c))
            E.ensure('given the cluster', kk is not None)
            E.ensure_eq('given the cluster', kk, k)
            want = dict(s)
            if z == 'exposed':
                want[Z] = k
            W.same_dict('the sample is returned', got, want)


def nan(x):
    return sym.isnan(x)


def near(x, y):
    return abs(x - y) <= 1e-8 + 1e-5 * abs(y)


for _t, _c in CASES:
    @unit('C09', 'constraints/%dx%d' % (len(_t), len(_c)),
          [VW + '._populate_constraints', VW + '._validate_cgpm_query',
           VW + '.hypothetical'], trials=40)
    def _(E, t=_t, c=_c):
        """The observed cells and the cluster of an observed row join the
        constraints; those of a new row are the given ones."""
        W = World(E, 0, rows=1, missing=True)
        v = W.view
        values = E.dict([(n, E.real('x%d' % n)) for n in c])
        if c and E.flag('none of the view') is False:
            E.assume(c[0] in W.dims)
        r = E.int('row')
        targets = list(t) if E.flag('simulate') else E.dict(
            [(n, E.real('t%d' % n)) for n in t])
        observed = 0 <= r and r < E.length(v.Zr())
        if observed:
            E.assume(r in v.Zr())
        clash = observed and any(
            n in W.dims and not nan(W.X(n, r)) and
            not near(W.X(n, r), values[n]) for n in c)
        call = lambda: v._populate_constraints(
            r, targets, E.dict(values.items()) if c or E.flag('dict') else None)
        if clash:
            E.raises((ValueError,), call,
                     'a constraint contradicts an observed cell')
            return
        got = call()
        n = E.pick('name', W.dims) if E.size('cols', hi=1) and \
            E.length(W.dims) > 0 else E.choice('other', [A, B, C_, Z])
        want = None
        if n in values:
            want = values[n]
        elif observed and n == Z:
            want = v.Zr(r)
        elif observed and n in W.dims and n not in t and not nan(W.X(n, r)):
            want = W.X(n, r)
        E.ensure('the constrained cells', (n in got) == (want is not None))
        if want is not None:
            E.ensure_eq('their values', got[n], want)
