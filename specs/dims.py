"""C08: a column of a mixture (Dim) routes rows and queries to clusters."""
import math

from vf.spec import unit, bounded
from specs import prims
from specs.prims import PRIMS, OUT
from specs.stubs import make_model, call_args
from specs.contracts import draw_contracts

D = 'cgpm.mixtures.dim:Dim'
ANY = (Exception,)
NAN = float('nan')
CL, IN1, IN2 = 9, 21, 22       # cluster variable and two inputs
QN = ('rowid', 'targets', 'constraints', 'inputs', 'N')
QD = dict(constraints=None, inputs=None, N=None)


def dim_of(E, hypers=None, inputs=(CL, IN1), **kw):
    Model = make_model(E, **kw)
    E.patch('cgpm.utils.config:cctype_class', lambda c: Model)
    h = {'a': E.real('a', lo=0), 'b': E.real('b', lo=0)} \
        if hypers is None else hypers
    d = E.get(D)([OUT], list(inputs), cctype='stub', hypers=h,
                 distargs={'k': 3}, rng=E.rng())
    Model.st['calls'] = []
    return d, Model, h


def arbitrary(E, lo=0, nz=0, **kw):
    """Any number of clusters; any number of rows, with or without a value,
    each assigned to a cluster that exists."""
    d, M, h = dim_of(E, **kw)
    dh = d.hypers

    def make(k):
        o = M([OUT], d.inputs[1:], hypers=dh, distargs=d.distargs, key=k)
        return o
    d.clusters = E.objects('clusters', make, lo=lo)
    if E.symbolic:
        zr = E.map('Zr', lambda r: E.int('zr'))
        zi = E.map('Zi', lambda r: E.int('zi'))
    else:
        ks = list(d.clusters)
        zr, zi = {}, {}
        for r in E.r.choice(30, size=E.r.randint(6) if ks else 0,
                            replace=False):
            (zr if E.r.randint(3) else zi)[int(r)] = ks[
                E.r.randint(len(ks))]
    d.Zr, d.Zi = zr, zi
    M.st['calls'] = []
    return d, M, h


def assigned(E, d, r):
    """(I): the cluster of an incorporated row exists; a row is in one map."""
    E.assume(d.Zr[r] in d.clusters)
    E.assume(r not in d.Zi)


def snap(E, m):
    return m.clone() if E.symbolic else dict(m)


def same_map(E, a, b, name, but=None):
    if not E.symbolic:
        x, y = dict(a), dict(b)
        if but is not None:
            x.pop(but, None)
            y.pop(but, None)
        E.ensure_eq(name, x, y)
        return
    j = E.int('any')
    if but is not None:
        E.assume(j != but)
    E.ensure(name, (j in a) == (j in b))
    if j in a and j in b:
        E.ensure_eq(name, a[j], b[j])


@unit('C08', 'construct', [D + '.__init__', D + '.create_aux_model'])
def _(E):
    d, M, h = dim_of(E)
    E.ensure('a new column has no cluster and no row',
             len(d.clusters) == 0 and len(d.Zr) == 0 and len(d.Zi) == 0)
    aux = d.aux_model
    E.ensure('the fresh cluster has the inputs of the column',
             list(aux.inputs) == [IN1] and list(aux.outputs) == [OUT])
    E.ensure('the fresh cluster has the distribution arguments',
             aux.distargs == {'k': 3})
    for k in sorted(h):
        E.ensure_eq('the fresh cluster has the hypers', aux.hypers[k], h[k])
    cls = E.get(D)
    E.raises((ValueError,), lambda: cls([1, 2], [CL], cctype='stub'),
             'exactly one output')
    E.raises((ValueError,), lambda: cls([], [CL], cctype='stub'),
             'exactly one output')
    E.raises((ValueError,), lambda: cls([1], [], cctype='stub'),
             'at least one input')


def cell(E, d, existing):
    k = E.int('k', lo=0)
    if existing:
        if E.symbolic:
            E.assume(k in d.clusters)
        else:
            k = E.pick('kk', d.clusters)
    else:
        E.assume(k not in d.clusters)
    return k


def fresh_row(E, d):
    r = E.int('rowid', lo=0)
    E.assume(r not in d.Zr)
    E.assume(r not in d.Zi)
    return r


def other_inputs(E, missing=False):
    """Any number of inputs apart from the cluster, with a missing one
    anywhere or none."""
    if E.symbolic:
        u = E.cells('u')
        m = E.map('inputs', u)
        E.assume(CL not in m)
        if missing:
            E.assume(E.missing(m[E.pick('gap', m)]))
        else:
            E.assume_each(m, lambda j: E.Not(E.missing(u(j))))
        return m
    n = int(E.r.randint(1 if missing else 0, 5))
    ks = [int(j) + 20 for j in E.r.permutation(9)[:n]]
    out = dict((j, E.real('u%d' % j)) for j in ks)
    if missing:
        for j in ks[:1 + int(E.r.randint(n))]:
            out[j] = NAN
    return out


def with_cluster(E, others, k):
    m = snap(E, others)
    m[CL] = k
    return m


for _ex in (True, False):
    for _why in ('value', 'missing value', 'missing input'):
        def _f(E, existing=_ex, why=_why):
            d, M, h = arbitrary(E)
            k = cell(E, d, existing)
            r = fresh_row(E, d)
            x = NAN if why == 'missing value' else E.real('x')
            others = other_inputs(E, why == 'missing input')
            inputs = with_cluster(E, others, k)
            old = d.clusters[k] if existing else d.aux_model
            zr, zi = snap(E, d.Zr), snap(E, d.Zi)
            d.incorporate(r, {OUT: x}, inputs)
            E.ensure('the cluster exists', k in d.clusters)
            E.ensure('an unseen cluster starts as the fresh cluster',
                     d.clusters[k] is old)
            calls = M.st['calls']
            if why == 'value':
                E.ensure('exactly one cluster is told', len(calls) == 1
                         and calls[0][0] == 'incorporate')
                E.ensure_eq('the cluster of the row is told', calls[0][1],
                            old.key)
                a = call_args(calls[0], ('rowid', 'observation', 'inputs'),
                              dict(inputs=None))
                E.ensure_eq('it gets the row', a['rowid'], r)
                E.ensure_eq('it gets the value', a['observation'], {OUT: x})
                same_map(E, a['inputs'], others,
                         'it gets the inputs but the cluster')
                E.ensure('the row is assigned', r in d.Zr)
                E.ensure_eq('the row is assigned', d.Zr[r], k)
                E.ensure('the row is not missing', r not in d.Zi)
            else:
                E.ensure('no cluster is told of a missing cell',
                         len(calls) == 0)
                E.ensure('the row is assigned as missing', r in d.Zi)
                E.ensure_eq('the row is assigned as missing', d.Zi[r], k)
                E.ensure('the row holds no value', r not in d.Zr)
            same_map(E, d.Zr, zr, 'other rows stay', but=r)
            same_map(E, d.Zi, zi, 'other missing rows stay', but=r)
            same_map(E, inputs, with_cluster(E, others, k),
                     'the caller keeps its inputs')
            if not existing:
                E.ensure('there is a new fresh cluster',
                         d.aux_model is not old)
                for n in sorted(h):
                    E.ensure_eq('the new fresh cluster shares the hypers',
                                d.aux_model.hypers[n], h[n])
            else:
                E.ensure('the fresh cluster stays', len(
                    d.aux_model.outputs) == 1 and d.aux_model is not old)
        unit('C08', 'incorporate/%s cluster/%s' % (
            'old' if _ex else 'new', _why),
            [D + '.incorporate', D + '.preprocess'])(_f)


@unit('C08', 'incorporate/reject', [D + '.incorporate', D + '.preprocess'])
def _(E):
    d, M, h = arbitrary(E, lo=1)
    held = E.flag('held')
    m = d.Zr if held else d.Zi
    if E.symbolic:
        r = E.int('r')
        E.assume(r in m)
    else:
        r = E.pick('r', m)
    k = E.int('k', lo=0)
    zr, zi = snap(E, d.Zr), snap(E, d.Zi)
    E.raises((ValueError,), lambda: d.incorporate(
        r, {OUT: E.real('x')}, {CL: k, IN1: 1.}), 'a row comes once')
    r2 = fresh_row(E, d)
    E.raises((ValueError,), lambda: d.incorporate(
        r2, {OUT: E.real('x')}, {IN1: 1.}), 'the cluster is required')
    E.ensure('no cluster is told', len(M.st['calls']) == 0)
    same_map(E, d.Zr, zr, 'a rejected row changes nothing')
    same_map(E, d.Zi, zi, 'a rejected row changes nothing')


@unit('C08', 'unincorporate', [D + '.unincorporate'])
def _(E):
    d, M, h = arbitrary(E, lo=1)
    held = E.flag('held')
    m = d.Zr if held else d.Zi
    if E.symbolic:
        r = E.int('r')
        E.assume(r in m)
        if held:
            assigned(E, d, r)
        else:
            E.assume(r not in d.Zr)
    else:
        r = E.pick('r', m)
    k = m[r]
    zr, zi = snap(E, d.Zr), snap(E, d.Zi)
    d.unincorporate(r)
    E.ensure('the row is gone', r not in d.Zr and r not in d.Zi)
    same_map(E, d.Zr, zr, 'other rows stay', but=r)
    same_map(E, d.Zi, zi, 'other missing rows stay', but=r)
    calls = M.st['calls']
    if held:
        E.ensure('one cluster is told', len(calls) == 1
                 and calls[0][0] == 'unincorporate')
        E.ensure_eq('the cluster of the row is told', calls[0][1], k)
        E.ensure_eq('it drops the row', call_args(
            calls[0], ('rowid',), {})['rowid'], r)
    else:
        E.ensure('no cluster is told of a missing cell', len(calls) == 0)


@unit('C08', 'unincorporate/reject', [D + '.unincorporate'])
def _(E):
    d, M, h = arbitrary(E)
    r = fresh_row(E, d)
    E.raises((ValueError,), lambda: d.unincorporate(r), 'unknown row')
    E.ensure('no cluster is told', len(M.st['calls']) == 0)


@unit('C08', 'score', [D + '.logpdf_score'])
def _(E):
    d, M, h = arbitrary(E)
    hs = [h[k] for k in sorted(h)]
    E.ensure_eq('the score is the sum over the clusters', d.logpdf_score(),
                E.fold(d.clusters, lambda k, c: M.st['score'](k, *hs)))


def query(E, what):
    for existing in (True, False):
        def f(E, existing=existing):
            d, M, h = arbitrary(E)
            k = cell(E, d, existing)
            r = E.int('rowid', lo=0)
            others = other_inputs(E)
            inputs = with_cluster(E, others, k)
            key = k if existing else d.aux_model.key
            zr, zi = snap(E, d.Zr), snap(E, d.Zi)
            if what == 'logpdf':
                x = E.real('x')
                got = d.logpdf(r, {OUT: x}, None, inputs)
                E.ensure_eq('the density of the cluster is returned', got,
                            M.st['dens'](key))
                t = {OUT: x}
            else:
                n = E.choice('N', [None, 0, 3])
                got = d.simulate(r, [OUT], None, inputs, n)
                E.ensure_eq('the sample of the cluster is returned',
                            got['sample'], M.st['val'](key))
                t = [OUT]
            calls = M.st['calls']
            E.ensure('one cluster is asked', len(calls) == 1
                     and calls[0][0] == what)
            E.ensure_eq('the cluster named by the query, or a fresh one, is '
                        'asked', calls[0][1], key)
            a = call_args(calls[0], QN, QD)
            E.ensure_eq('it gets the row', a['rowid'], r)
            E.ensure_eq('it gets the target', a['targets'], t)
            E.ensure('it gets no constraint', not a['constraints'])
            same_map(E, a['inputs'], others,
                     'it gets the inputs but the cluster')
            if what == 'simulate':
                E.ensure('it gets the number of samples', a['N'] == n
                         if n is not None else a['N'] is None)
            same_map(E, d.Zr, zr, 'a query assigns nothing')
            same_map(E, d.Zi, zi, 'a query assigns nothing')
            E.ensure('a query opens no cluster',
                     (k in d.clusters) == existing)
        unit('C08', '%s/%s cluster' % (what, 'old' if existing else 'new'),
             [D + '.' + what, D + '.preprocess'])(f)


query(None, 'logpdf')
query(None, 'simulate')


@unit('C08', 'query/reject', [D + '.logpdf', D + '.simulate',
                              D + '.preprocess'])
def _(E):
    d, M, h = arbitrary(E)
    r = E.int('rowid', lo=0)
    x = E.real('x')
    E.raises((ValueError,), lambda: d.logpdf(r, {OUT: x}, None, {IN1: 1.}),
             'the cluster is required')
    E.raises((ValueError,), lambda: d.simulate(r, [OUT], None, {IN1: 1.}),
             'the cluster is required')
    E.ensure_eq('an undefined cell has log density 0',
                d.logpdf(r, {OUT: NAN}, None, {CL: 0, IN1: 1.}), 0)
    E.ensure_eq('an undefined input gives log density 0',
                d.logpdf(r, {OUT: x}, None, with_cluster(
                    E, other_inputs(E, True), 0)), 0)
    E.ensure('nobody is asked', len(M.st['calls']) == 0)


@unit('C08', 'transition_params', [D + '.transition_params',
                                   D + '.is_collapsed'])
def _(E):
    c = E.flag('collapsed')
    d, M, h = arbitrary(E, collapsed=c)
    d.transition_params()
    if c:
        E.ensure('collapsed components have no parameters',
                 not [e for e in E.events if e[0] == 'transition_params'])
    else:
        E.ensure_each('every cluster updates its parameters', d.clusters,
                      'transition_params')


@unit('C08', 'set_hypers', [D + '.set_hypers', D + '.create_aux_model'])
def _(E):
    d, M, h = arbitrary(E)
    h2 = {'a': E.real('a2', lo=0), 'b': E.real('b2', lo=0)}
    given = dict(h2)
    d.set_hypers(given)
    given['a'] = 'changed by the caller'
    for k in sorted(h2):
        E.ensure_eq('the column has the hypers', d.hypers[k], h2[k])
        E.ensure_eq('a fresh cluster has the hypers', d.aux_model.hypers[k],
                    h2[k])
    E.ensure_each('every cluster gets the hypers', d.clusters, 'set_hypers',
                  lambda k, p: E.And(p['a'] == h2['a'], p['b'] == h2['b']))


def table(E, name, lo=1):
    n = E.size(name, lo=lo)
    return E.table(name, n, E.func(name, lo=0))


@unit('C08', 'transition_hypers', [D + '.transition_hypers',
                                   D + '.create_aux_model'], trials=60)
def _(E):
    draw_contracts(E)
    d, M, h = arbitrary(E)
    d.hyper_grids = {'a': table(E, 'ga', 2), 'b': table(E, 'gb', 2)}
    old = dict(h)
    score = M.st['score']
    if E.symbolic:
        # the events of the final pass only
        pass
    d.transition_hypers()
    draws = d.rng.draws
    draws = [x for x in draws if x[0] == 'choice']
    E.ensure('one draw per hyperparameter', len(draws) == 2)
    new = dict(d.hypers)
    E.ensure('the hyperparameters keep their names', sorted(new) == ['a',
                                                                   'b'])
    # which was drawn first?
    ga, gb = d.hyper_grids['a'], d.hyper_grids['b']
    la, lb = E.length(ga), E.length(gb)
    i, j = draws[0][2], draws[1][2]

    def total(a, b):
        return E.fold(d.clusters, lambda k, c: score(k, a, b))
    if first_is(E, d, draws[0], draws[1], old, new, 'a', total):
        E.same_law('the first hyper given the old value of the other',
                   draws[0], E.indices(la), lambda t: total(ga[t], old['b']))
        E.same_law('the second given the new value of the first',
                   draws[1], E.indices(lb), lambda t: total(ga[i], gb[t]))
        E.ensure_eq('the drawn grid point is kept', new['a'], ga[i])
        E.ensure_eq('the drawn grid point is kept', new['b'], gb[j])
    else:
        E.same_law('the first hyper given the old value of the other',
                   draws[0], E.indices(lb), lambda t: total(old['a'], gb[t]))
        E.same_law('the second given the new value of the first',
                   draws[1], E.indices(la), lambda t: total(ga[t], gb[i]))
        E.ensure_eq('the drawn grid point is kept', new['b'], gb[i])
        E.ensure_eq('the drawn grid point is kept', new['a'], ga[j])
    for k in ('a', 'b'):
        E.ensure_eq('a fresh cluster shares the hypers',
                    d.aux_model.hypers[k], new[k])
    last_hypers(E, d, new)


def first_is(E, d, draw, then, old, new, name, total):
    if E.symbolic:
        from vf import coll
        a = draw[1]['a']
        return coll.as_family(a).parts[0].dom.key() == \
            d.hyper_grids[name].parts[0].dom.key()
    ga, gb = d.hyper_grids['a'], d.hyper_grids['b']
    w = [total(x, old['b']) for x in ga]
    m = max(w)
    if all(abs(x - m) < 1e-9 for x in w + [total(ga[0], y) for y in gb]):
        # flat: either may have been drawn first
        return len(ga) == len(draw[1]['p']) and \
            len(gb) == len(then[1]['p']) and \
            new['a'] == ga[int(draw[2])] and new['b'] == gb[int(then[2])]
    w = [math.exp(x - m) for x in w]
    return len(w) == len(draw[1]['p']) and all(
        abs(x / sum(w) - y) < 1e-6 for x, y in zip(w, draw[1]['p'])) \
        and new['a'] == ga[int(draw[2])]


def last_hypers(E, d, new):
    """Every cluster ends with the hypers of the column."""
    if E.symbolic:
        top = [e for e in E.events if e[0] == 'set_hypers'
               and len(e[3]) == 1]
        E.events = top[-1:]
        E.ensure_each('every cluster ends with the hypers of the column',
                      d.clusters, 'set_hypers', lambda k, p: E.And(
                          p['a'] == new['a'], p['b'] == new['b']))
    else:
        for k in d.clusters:
            E.ensure_eq('every cluster ends with the hypers of the column',
                        d.clusters[k].hypers, new)


@unit('C08', 'transition_hyper_grids', [D + '.transition_hyper_grids'])
def _(E):
    g = {'a': table(E, 'ga'), 'b': table(E, 'gb')}
    has = E.flag('has')
    d, M, h = dim_of(E, hypers=None if has else {}, grids=lambda X, n: g)
    X = [E.real('x'), NAN, E.real('y')]
    n = E.int('n', lo=2)
    d.transition_hyper_grids(X, n_grid=n)
    calls = M.st['calls']
    E.ensure('grids are built once', len(calls) == 1)
    E.ensure_eq('grids are built from the defined cells', list(
        calls[0][2][0]), [X[0], X[2]])
    E.ensure_eq('with the size asked', calls[0][3]['n'], n)
    E.ensure('the grids are kept', d.hyper_grids is g)
    if has:
        for k in sorted(h):
            E.ensure_eq('given hypers stay', d.hypers[k], h[k])
    else:
        E.ensure('all hypers are chosen', sorted(d.hypers) == ['a', 'b'])
        draws = d.rng.draws
        E.ensure('one draw per hyper', len(draws) == 2)
    for k in sorted(d.hypers):
        E.ensure_eq('a fresh cluster shares the hypers',
                    d.aux_model.hypers[k], d.hypers[k])


@bounded('C08', 'suffstats', [D + '.get_suffstats'], trials=30,
         bound='up to 6 clusters')
def _(E):
    d, M, h = arbitrary(E)
    s = d.get_suffstats()
    E.ensure('statistics are listed per cluster', all(
        s[k] == {'stats': k} for k in d.clusters))
    rest = [k for k in s if k not in d.clusters]
    E.ensure('and for one fresh cluster', len(rest) == 1 and s[rest[0]] == {
        'stats': d.aux_model.key})


@bounded('C08', 'attributes', [
    D + '.is_collapsed', D + '.is_conditional', D + '.is_continuous',
    D + '.is_numeric', D + '.name', D + '.get_distargs'], trials=10,
    bound='two values each')
def _(E):
    kw = dict((k, E.flag(k)) for k in ('collapsed', 'conditional',
                                       'continuous', 'numeric'))
    d, M, h = dim_of(E, **kw)
    for k in kw:
        E.ensure('%s is that of the component' % k,
                 getattr(d, 'is_' + k)() == kw[k])
    E.ensure('the name is that of the component', d.name() == 'stub')
    E.ensure('so are the arguments', d.get_distargs() == {'k': 3})


REAL = ['normal', 'poisson', 'bernoulli', 'categorical', 'exponential',
        'geometric', 'lognormal', 'vonmises', 'beta', 'normal_trunc']


def real_value(E, key):
    r = E.r
    return {'normal': lambda: float(r.normal()),
            'poisson': lambda: int(r.poisson(3)),
            'bernoulli': lambda: int(r.randint(2)),
            'categorical': lambda: int(r.randint(4)),
            'exponential': lambda: float(r.exponential()),
            'geometric': lambda: int(r.geometric(.4) - 1),
            'lognormal': lambda: float(r.lognormal()),
            'vonmises': lambda: float(r.uniform(0, 6.28)),
            'beta': lambda: float(r.uniform(.01, .99)),
            'normal_trunc': lambda: float(r.uniform(-1, 2))}[key]()


def real_args(key):
    return {'categorical': {'k': 4},
            'normal_trunc': {'l': -1., 'h': 2.}}.get(key)


@bounded('C08', 'history', [D + '.incorporate', D + '.unincorporate',
                            D + '.transition_hypers', D + '.logpdf'],
         trials=60, bound='up to 20 operations on the real components')
def _(E):
    key = E.choice('cctype', REAL)
    import numpy as np
    d = E.get(D)([OUT], [CL], cctype=key, distargs=real_args(key),
                 rng=np.random.RandomState(E.r.randint(2 ** 31)))
    X = [real_value(E, key) for _ in range(5)]
    d.transition_hyper_grids(X)
    held = {}
    for step in range(20):
        op = E.r.randint(8)
        if op == 0 and held:
            r = list(held)[E.r.randint(len(held))]
            d.unincorporate(r)
            del held[r]
        elif op == 1 and any(x == x for _, x in held.values()):
            d.transition_hypers()
        elif op == 2:
            d.transition_params() if key == 'beta' and step < 6 else None
        elif op < 7:
            r = int(E.r.randint(30))
            if r in held:
                continue
            x = NAN if E.r.randint(5) == 0 else real_value(E, key)
            k = int(E.r.randint(4))
            d.incorporate(r, {OUT: x}, {CL: k})
            held[r] = (k, x)
        E.ensure('rows with a value', dict(d.Zr) == dict(
            (r, k) for r, (k, x) in held.items() if x == x))
        E.ensure('rows without a value', dict(d.Zi) == dict(
            (r, k) for r, (k, x) in held.items() if x != x))
        for k, c in d.clusters.items():
            E.ensure('a cluster holds its rows', dict(c.data) == dict(
                (r, x) for r, (kk, x) in held.items()
                if kk == k and x == x))
            for n in d.hypers:
                E.ensure_eq('clusters share the hypers', c.get_hypers()[n],
                            d.hypers[n])
        E.ensure('the fresh cluster is empty', not d.aux_model.data)
        for n in d.hypers:
            E.ensure_eq('the fresh cluster shares the hypers',
                        d.aux_model.get_hypers()[n], d.hypers[n])
        E.ensure('clusters are distinct objects', len(set(
            [id(c) for c in d.clusters.values()] + [id(d.aux_model)]))
            == len(d.clusters) + 1)
