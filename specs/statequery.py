"""C12: queries of a state, proved over the contracts of its views and of the
columns of a view."""
from vf import sym
from vf.spec import unit, Stub
from specs.contracts import draw_contracts
from specs.viewstubs import World, Z
from specs.viewquery import A, B, C_, CASES, Tables, nan, near
from specs.statestubs import S, BASE, CRP, NAN, StateWorld

SM = 'cgpm.crosscat.sampling'
VE = (ValueError,)


# --------------------------------------------------------------------------
# One view.

def view_world(E, targets, constraints):
    """A view with (at least) the columns of the query, whose densities and
    samples given a cluster are known by contract."""
    names = targets + constraints
    W = World(E, 0, rows=1, names=names)
    v = W.view
    E.assume(-1 not in v.crp.clusters[0].data)
    x = dict((n, E.real('x%d' % n)) for n in names)
    dens = E.func('dens')
    W.calls = []
    m = E.size('tables', lo=1)
    table = E.func('table', sort='int')
    if not E.symbolic:
        table = lambda i, f=table: f(i) % 50
    K = E.table('K', m, table)
    E.assume_below(m, lambda i: table(i) >= 0)
    real = v.crp
    data, counts = real.clusters[0].data, real.clusters[0].counts
    tables = Tables(E, K, data, counts)
    tables.N = E.length(data)
    v.crp = Stub()
    v.crp.clusters = {0: tables}
    v.crp.hypers = real.hypers

    def on_logpdf(d, rowid, targets, constraints, inputs):
        E.ensure('the density of a new row', rowid is None or rowid == -1)
        E.ensure('given nothing else', not constraints)
        E.ensure('of one cell', len(targets) == 1)
        c, = targets
        E.ensure_eq('of the column', c, d.index)
        E.ensure('of the query', c in names, c)
        E.ensure_eq('of the value of the query', targets[c], x[c])
        E.ensure('given the cluster', len(inputs) == 1)
        return dens(c, inputs[Z])
    W.on_logpdf = on_logpdf

    def simulate(d, rowid, targets, constraints=None, inputs=None, N=None):
        E.ensure('a sample of a new row', rowid is None or rowid == -1)
        E.ensure('given nothing else', not constraints)
        E.ensure('of one column', len(targets) == 1)
        E.ensure_eq('of the column', targets[0], d.index)
        E.ensure('given the cluster', len(inputs) == 1)
        n = 1 if N is None else N
        s = [{targets[0]: E.real('s%s_%d' % (targets[0], i))}
             for i in range(n)]
        W.calls.append((targets[0], inputs[Z], s))
        return s[0] if N is None else s
    W.StubDim.simulate = simulate

    def prior(k):
        """The seating probability of a new row (C06)."""
        return E.log(counts.get(k, v.crp.hypers['alpha'])) - E.log(
            tables.N + v.crp.hypers['alpha'])

    def weight(names, k):
        return prior(k) + sum(dens(n, k) for n in names)
    return W, v, x, K, weight, dens


def lse(E, K, f):
    return E.log(E.sum(E.mapped(lambda k: E.exp(f(k)), K)))


for _t, _c in CASES:
    _name = '%dx%d' % (len(_t), len(_c))

    @unit('C12', 'view/logpdf/' + _name, [SM + ':view_logpdf',
                                          SM + ':_logpdf_row'], trials=20)
    def _(E, t=_t, c=_c):
        """A view answers by the mixture over its clusters, given the
        constraints."""
        W, v, x, K, weight, dens = view_world(E, t, c)
        got = E.get(SM + ':view_logpdf')(
            v, None, dict((n, x[n]) for n in t), dict((n, x[n]) for n in c))
        E.ensure_eq('the density of the mixture', got,
                    lse(E, K, lambda k: weight(t + c, k)) -
                    lse(E, K, lambda k: weight(c, k)))

    @unit('C12', 'view/observed/' + _name, [SM + ':view_logpdf',
                                            SM + ':view_simulate'], trials=20)
    def _(E, t=_t, c=_c):
        """A row of the view is queried within its cluster."""
        W, v, x, K, weight, dens = view_world(E, t, c)
        data = v.crp.clusters[0].data
        if E.symbolic:
            r = E.int('row', lo=0)
            E.assume(r in data)
            E.assume(r < E.length(data))
        else:
            r = E.pick('row', data)
            E.assume(r < len(data))
        k = data[r]
        cs = dict((n, x[n]) for n in c)
        got = E.get(SM + ':view_logpdf')(v, r, dict((n, x[n]) for n in t), cs)
        E.ensure_eq('the density in the cluster of the row', got,
                    sum(dens(n, k) for n in t))
        W.calls = []
        s = list(E.get(SM + ':view_simulate')(v, r, list(t), cs, 2))
        E.ensure('as many samples as asked for', len(s) == 2)
        E.ensure('each column is sampled once',
                 sorted(a for a, _, _ in W.calls) == sorted(t))
        for a, kk, ss in W.calls:
            E.ensure_eq('in the cluster of the row', kk, k)
            for i in range(2):
                E.ensure_eq('the samples are joined', s[i][a], ss[i][a])
        E.ensure('no other column', all(len(d) == len(t) for d in s))

    @unit('C12', 'view/simulate/' + _name, [SM + ':view_simulate',
                                            SM + ':_simulate_row'], trials=20)
    def _(E, t=_t, c=_c):
        """The cluster is drawn given the constraints, then the targets given
        the cluster."""
        draw_contracts(E)
        W, v, x, K, weight, dens = view_world(E, t, c)
        s = list(E.get(SM + ':view_simulate')(
            v, None, list(t), dict((n, x[n]) for n in c), 1))
        draws = [d for d in v.rng.draws if d[0] == 'choice']
        if not draws:
            E.ensure_eq('the only table is chosen', E.length(K), 1)
            k = K[0]
        else:
            E.ensure('one cluster is drawn', len(draws) == 1)
            E.same_law_at('the cluster given the constraints', draws, K,
                          lambda i: weight(c, K[i]))
            k = E.scalar(draws[0][2])
        E.ensure('one sample', len(s) == 1)
        E.ensure('each column is sampled once',
                 sorted(a for a, _, _ in W.calls) == sorted(t))
        for a, kk, ss in W.calls:
            E.ensure_eq('given the drawn cluster', kk, k)
            E.ensure_eq('the sample is returned', s[0][a], ss[0][a])
        E.ensure('no other column', len(s[0]) == len(t))


# --------------------------------------------------------------------------
# The views of a state are independent.

def pieces(E, W, names):
    """The names grouped by their view."""
    out = []
    for n in names:
        for g in out:
            if W.z(g[0]) == W.z(n):
                g.append(n)
                break
        else:
            out.append([n])
    return out


def query_world(E, targets, constraints):
    W = StateWorld(E, names=targets + constraints)
    W.x = dict((n, E.real('x%d' % n)) for n in targets + constraints)
    W.asked = []

    def record(view, rowid, targets, constraints):
        v = view.v
        got = dict((n, 1) for n in targets)
        W.asked.append((v, rowid, targets, constraints))
        E.ensure('a view is asked about its columns', all(
            E.truth(W.z(n) == v) for n in list(targets) + list(constraints)))
        E.ensure('all constrained columns of the view are passed on', all(
            n in constraints or not E.truth(W.z(n) == v) for n in
            W.constrained))
        for n in constraints:
            E.ensure_eq('the constraints are passed on', constraints[n],
                        W.x[n])
    W.record = record
    W.constrained = constraints
    return W


for _t, _c in CASES:
    _name = '%dx%d' % (len(_t), len(_c))

    @unit('C12', 'views/logpdf/' + _name, [SM + ':state_logpdf'], trials=20)
    def _(E, t=_t, c=_c):
        W = query_world(E, t, c)
        dens = E.func('vdens')
        rowid = E.int('row')

        def view_logpdf(view, rowid, targets, constraints):
            W.record(view, rowid, targets, constraints)
            for n in targets:
                E.ensure_eq('the targets are passed on', targets[n], W.x[n])
            return dens(view.v)
        E.patch(SM + ':view_logpdf', view_logpdf)
        got = E.get(SM + ':state_logpdf')(
            W.st, rowid, dict((n, W.x[n]) for n in t),
            dict((n, W.x[n]) for n in c))
        want = pieces(E, W, t)
        E.ensure_eq('the views are independent', got,
                    sum(dens(W.z(g[0])) for g in want))
        E.ensure('each view is asked once', len(W.asked) == len(want))
        E.ensure('each target is asked for once', sorted(
            n for a in W.asked for n in a[2]) == sorted(t))
        for a in W.asked:
            E.ensure_eq('about the row', a[1], rowid)

    for _N in (None, 1, 2):
        @unit('C12', 'views/simulate/%s/%s' % (_name, _N),
              [SM + ':state_simulate'], trials=20)
        def _(E, t=_t, c=_c, N=_N):
            W = query_world(E, t, c)
            rowid = E.int('row')
            drawn = dict((n, [E.real('s%d_%d' % (n, i))
                              for i in range(N or 1)]) for n in t)

            def view_simulate(view, rowid, targets, constraints, N):
                W.record(view, rowid, targets, constraints)
                E.ensure('as many samples as asked for', N == len(
                    drawn[t[0]]))
                return [dict((n, drawn[n][i]) for n in targets)
                        for i in range(N)]
            E.patch(SM + ':view_simulate', view_simulate)
            got = E.get(SM + ':state_simulate')(
                W.st, rowid, list(t), dict((n, W.x[n]) for n in c), N)
            if N is None:
                got = [got]
            E.ensure('as many samples as asked for', len(got) == (N or 1))
            for i, s in enumerate(got):
                E.ensure('a sample is of the targets',
                         sorted(s) == sorted(t))
                for n in t:
                    E.ensure_eq('the samples of the views are joined', s[n],
                                drawn[n][i])
            E.ensure('each view is asked once',
                     len(W.asked) == len(pieces(E, W, t)))
            for a in W.asked:
                E.ensure_eq('about the row', a[1], rowid)


# --------------------------------------------------------------------------
# The entry points.

for _f in ('logpdf', 'simulate'):
    @unit('C12', 'dispatch/' + _f, [S + '.logpdf', S + '.simulate'],
          trials=20)
    def _(E, f=_f):
        """A state without conditional or foreign models asks its views, any
        other state asks its network; nothing is dropped on the way."""
        W = StateWorld(E)
        st = W.st
        composite = E.choice('composite', [False, True])
        st._composite = composite
        rowid, x, y = E.int('row'), E.real('x'), E.real('y')
        a, b = E.int('a'), E.int('b')
        E.assume(a != b)
        targets = E.dict([(a, x)]) if f == 'logpdf' else [a]
        cs = E.choice('constraints', [None, {}, 'some'])
        if cs == 'some':
            cs = E.dict([(b, y)])
        inputs = None if not composite else E.choice('inputs', [None, {7: 1.}])
        N = E.choice('N', [None, 3]) if f == 'simulate' else None
        acc = E.choice('accuracy', [None, 4])
        log = []
        full = E.dict([(b, y)])

        def validate(r, t, c):
            log.append(('validate', r, t, c))
        E.replace(st, '_validate_cgpm_query', validate)

        def populate(r, t, c):
            log.append(('populate', r, t, c))
            return full
        E.replace(st, '_populate_constraints', populate)

        class Net(Stub):
            def logpdf(self, rowid, targets, constraints=None, inputs=None):
                log.append(('network', rowid, targets, constraints, inputs,
                            None))
                return 'answer'

            def simulate(self, rowid, targets, constraints=None,
                         inputs=None, N=None):
                log.append(('network', rowid, targets, constraints, inputs,
                            N))
                return 'answer'

        def network(accuracy):
            log.append(('build', accuracy))
            return Net()
        E.replace(st, 'build_network', network)
        E.patch(SM + ':state_logpdf', lambda state, rowid, targets,
                constraints=None: log.append(
                    ('views', rowid, targets, constraints, None, None)) or
                'answer')
        E.patch(SM + ':state_simulate', lambda state, rowid, targets,
                constraints=None, N=None: log.append(
                    ('views', rowid, targets, constraints, None, N)) or
                'answer')
        kw = dict(constraints=cs, inputs=inputs, accuracy=acc)
        if f == 'simulate':
            kw['N'] = N
        r = getattr(st, f)(rowid, targets, **kw)
        E.ensure('the answer is returned', r == 'answer')
        kinds = [l[0] for l in log]
        E.ensure('the query is checked first', kinds[0] == 'validate' and
                 kinds.count('validate') == 1)
        E.ensure('one answer is computed', kinds.count('views') +
                 kinds.count('network') == 1)
        last = log[-1]
        E.ensure('the right part is asked', last[0] == (
            'network' if composite else 'views'))
        for l in log:
            if l[0] == 'build':
                E.ensure('the accuracy is passed on', l[1] == acc)
                continue
            E.ensure_eq('the row is passed on', l[1], rowid)
            E.ensure('the targets are passed on', l[2] is targets or
                     E.truth(l[2] == targets))
        for l in log:
            if l[0] in ('validate', 'populate') or (
                    l[0] == 'views'):
                E.ensure('the constraints are passed on', l[3] is cs or (
                    not l[3] and not cs))
        if composite:
            E.ensure('the observed cells join the constraints',
                     last[3] is full)
        E.ensure('the inputs are passed on', last[4] is inputs or (
            not last[4] and not inputs))
        E.ensure('the number of samples is passed on', last[5] == N)


for _t, _c in CASES:
    @unit('C12', 'constraints/%dx%d' % (len(_t), len(_c)),
          [S + '._populate_constraints', S + '.hypothetical'], trials=40)
    def _(E, t=_t, c=_c):
        """The observed cells of a row join the constraints."""
        W = StateWorld(E)
        values = E.dict([(n, E.real('x%d' % n)) for n in c])
        r = E.int('row')
        targets = list(t) if E.flag('simulate') else E.dict(
            [(n, E.real('t%d' % n)) for n in t])
        observed = 0 <= r and r < W.n
        got = W.st._populate_constraints(
            r, targets, E.dict(values.items()) if c or E.flag('dict')
            else None)
        n = E.pick('name', W.Zv) if E.flag('a column') else E.choice(
            'other', [A, B, C_, 2 ** 30])
        want = None
        if n in values:
            want = values[n]
        elif observed and n in W.Zv and n not in t and not E.truth(
                E.missing(W.cell(n, r))):
            want = W.cell(n, r)
        E.ensure('the constrained cells', (n in got) == (want is not None))
        if want is not None:
            E.ensure('their values', E.same(got[n], want))
        E.ensure('nothing changes', not E.events)

    @unit('C12', 'validate/%dx%d' % (len(_t), len(_c)),
          [S + '._validate_cgpm_query'], trials=60)
    def _(E, t=_t, c=_c):
        """Queries that contradict the table are rejected, no others."""
        W = StateWorld(E)
        values = E.dict([(n, E.real('x%d' % n)) for n in c])
        r = E.int('row')
        simulate = E.flag('simulate')
        names = list(t)
        overlap = bool(c) and E.flag('overlap')
        if overlap:
            names = names + c
        twice = simulate and E.flag('twice')
        if twice:
            names = names + [t[0]]
        targets = names if simulate else E.dict(
            [(n, E.real('t%d' % n)) for n in names])
        observed = 0 <= r and r < W.n
        cell = lambda n: W.cell(n, r)
        bad = overlap or twice
        if not bad and observed and not simulate:
            bad = any(n in W.Zv and not E.truth(E.missing(cell(n)))
                      for n in names)
        if not bad and observed:
            bad = any(n in W.Zv and not E.truth(E.missing(cell(n))) and
                      not near(cell(n), values[n]) for n in c)
        call = lambda: W.st._validate_cgpm_query(
            r, targets, E.dict(values.items()) if c or E.flag('dict')
            else None)
        if bad:
            E.raises(VE, call, 'a query that contradicts the table')
        else:
            E.ensure('a good query passes', call() is None)
        E.ensure('nothing changes', not E.events)


# --------------------------------------------------------------------------
# Bulk queries are the single queries, in order.

def bulk(E, kind, given):
    n = E.size('queries', lo=0)
    st = E.bare(E.get(S))
    fs = dict((k, E.func(k, sort='int')) for k in 'rtcin')
    ls = dict((k, E.table('list_' + k, n, fs[k])) for k in 'rtcin')
    ans = E.func('answer', sort='int')
    code = lambda x: -1 if x is None else -2 if isinstance(x, dict) and \
        not x else x

    if kind == 'simulate':
        def simulate(rowid, targets, constraints=None, inputs=None, N=None,
                     accuracy=None):
            E.ensure('the accuracy is the default', accuracy is None)
            return ans(rowid, targets, code(constraints), code(inputs), N)
        st.simulate = simulate
    else:
        def logpdf(rowid, targets, constraints=None, inputs=None,
                   accuracy=None):
            E.ensure('the accuracy is the default', accuracy is None)
            return ans(rowid, targets, code(constraints), code(inputs), 0)
        st.logpdf = logpdf
    kw = {}
    for k, name in (('c', 'constraints_list'), ('i', 'inputs_list'),
                    ('n', 'Ns')):
        if k in given:
            kw[name] = ls[k]
    got = getattr(st, kind + '_bulk')(ls['r'], ls['t'], **kw)
    arg = lambda k, j, default: fs[k](j) if k in given else default
    want = E.table('want', n, lambda j: ans(
        fs['r'](j), fs['t'](j), arg('c', j, -2), arg('i', j, -2),
        arg('n', j, 1) if kind == 'simulate' else 0))
    E.family_eq('the answers are those of the single queries', got, want)


for _kind in ('simulate', 'logpdf'):
    for _given in ('', 'c', 'ci') + (('cin', 'n') if _kind == 'simulate'
                                     else ('i',)):
        @unit('C12', 'bulk/%s/%s' % (_kind, _given or '-'), [
            '%s.%s_bulk' % (S, _kind)], trials=15)
        def _(E, kind=_kind, given=_given):
            bulk(E, kind, given)
