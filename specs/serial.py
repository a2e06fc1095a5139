"""C18: what is saved is what is restored."""
import copy
import io
import json
import os
import shutil
import tempfile

import numpy as np

from specs import mixlib
from specs.mixlib import St, Mix, same, state_state, view_state
from vf.spec import bounded

S = 'cgpm.crosscat.state:State'
V = 'cgpm.mixtures.view:View'
EN = 'cgpm.crosscat.engine:Engine'
BOUND = 'up to 5 rows, 4 columns of 8 kinds in any views, missing cells'


def plain(x):
    """numpy scalars are numbers (they are in Python 2)."""
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    raise TypeError('not serialisable: %r' % (x,))


def through_json(m):
    return json.loads(json.dumps(m, default=plain))


def through_metadata(m):
    return copy.deepcopy(m)


def look(s):
    """Everything a State holds."""
    d = state_state(s)
    d.pop('order')
    d['Ci'] = [list(x) for x in s.Ci]
    d['Cd'] = [list(x) for x in s.Cd]
    d['diagnostics'] = json.loads(json.dumps(dict(s.diagnostics),
                                             default=plain))
    d['loom'] = s._loom_path
    d['cctypes'] = list(s.cctypes())
    d['distargs'] = [dict(x or {}) for x in s.distargs()]
    d['composite'] = bool(s.is_composite())
    d['hooked'] = sorted((list(c.outputs), list(c.inputs))
                         for c in s.hooked_cgpms.values())
    for v in d['views'].values():
        v['outputs'] = sorted(v['outputs'])
        for x in v['dims'].values():
            x.pop('clusters')         # compared below, without the params
    return d


def stats(s):
    return dict((c, dict((k, (mixlib.data_of(m), m.get_suffstats()))
                         for k, m in s.dim_for(c).clusters.items()))
                for c in s.outputs)


def make(E, hooks=True, n=None):
    """A State with a history."""
    kw = {}
    st = St(E, build=False, n=n)
    if E.r.randint(3) == 0 and len(st.cols) > 1:
        a, b = st.cols[:2]
        if st.Zv[a] != st.Zv[b]:
            kw['Ci'] = [(a, b)]
    if E.r.randint(4) == 0:
        kw['loom_path'] = '/nowhere/project'
    st.kw = kw
    s = st.build()
    ks = [k for k in ('alpha', 'view_alphas', 'rows', 'columns', 'column_hypers')
          if E.r.randint(2)]
    if ks:
        s.transition(N=2, kernels=ks, progress=False,
                     checkpoint=None if s.Ci else E.choice('chk', [None, 1]))
    if hooks:
        b = [c for c, t in zip(st.cols, st.cctypes) if t == 'bernoulli']
        for i, c in enumerate(b[:2]):
            s.compose_cgpm(E.get('cgpm.dummy.twoway:TwoWay')(
                [300 + i], [c], rng=E.rng()))
    return st, s


def cells_of(st, s):
    q = [st.some_cells(st.split()[0]) for _ in range(3)]
    out = []
    for t in q:
        out.append(float(s.logpdf(-1, dict(t))))
        rest = [c for c in st.cols if c not in t]
    return q, out


def check_restored(E, st, s, t, how):
    a, b = look(s), look(t)
    for k in a:
        E.ensure('%s restores %s' % (how, k), same(norm(a[k]), norm(b[k])),
                 (a[k], b[k]))
    E.ensure(how + ' restores the statistics', same(norm(stats(s)),
                                                    norm(stats(t))))
    for _ in range(3):
        q = st.some_cells(st.split()[0])
        c = st.some_cells([x for x in st.cols if x not in q
                           and E.r.randint(2)])
        E.ensure_eq(how + ': queries are answered as before',
                    float(t.logpdf(-1, dict(q), dict(c))),
                    float(s.logpdf(-1, dict(q), dict(c))))
    if not s.Ci:
        E.ensure_eq(how + ': the score is the same', t.logpdf_score(),
                    s.logpdf_score())
    for x, y in zip(sorted(s.hooked_cgpms), sorted(t.hooked_cgpms)):
        g = s.hooked_cgpms[x]
        o, i = g.outputs[0], g.inputs[0]
        E.ensure_eq(how + ': hooked queries are answered as before',
                    float(t.logpdf(-1, {o: 1}, {i: 1})),
                    float(s.logpdf(-1, {o: 1}, {i: 1})))
    E.ensure(how + ': the restored state can go on', go_on(t))


def go_on(t):
    t.transition(N=1, kernels=['alpha', 'view_alphas', 'rows', 'columns',
                               'column_params', 'column_hypers'],
                 progress=False)
    return True


def norm(x):
    """Tuples and lists alike."""
    if isinstance(x, dict):
        return dict((k, norm(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


@bounded('C18', 'state', [S + '.to_metadata', S + '.from_metadata'],
         trials=80, bound=BOUND)
def _(E):
    st, s = make(E)
    before = look(s)
    m = s.to_metadata()
    via = E.choice('via', ['metadata', 'json'])
    d = {'metadata': through_metadata, 'json': through_json}[via](m)
    mod = __import__('importlib').import_module(d['factory'][0])
    E.ensure('the factory rebuilds the state', getattr(
        mod, d['factory'][1]) is E.get(S))
    rng = E.choice('rng', [None, 1])
    t = E.get(S).from_metadata(d, rng=E.rng() if rng else None)
    E.ensure('saving changes nothing', same(norm(before), norm(look(s))))
    check_restored(E, st, s, t, via)


@bounded('C18', 'state/own copy', [S + '.to_metadata', S + '.from_metadata'],
         trials=40, bound=BOUND)
def _(E):
    st, s = make(E, hooks=False)
    m = s.to_metadata()
    t = E.get(S).from_metadata(m, rng=E.rng())
    before = copy.deepcopy(look(s))
    sb = copy.deepcopy(stats(s))
    t.transition(N=2, progress=False, checkpoint=None if s.Ci else 1)
    t.incorporate(st.n, st.some_cells(st.cols))
    E.ensure('inference on a restored state leaves the original alone',
             same(norm(before), norm(look(s)))
             and same(norm(sb), norm(stats(s))),
             [k for k in before if not same(norm(before[k]),
                                            norm(look(s)[k]))])


@bounded('C18', 'state/pickle', [S + '.to_pickle', S + '.from_pickle'],
         trials=40, bound=BOUND)
def _(E):
    st, s = make(E)
    if E.r.randint(2):
        f = io.BytesIO()
        s.to_pickle(f)
        f.seek(0)
        t = E.get(S).from_pickle(f, rng=E.rng())
    else:
        d = tempfile.mkdtemp(prefix='vfpkl')
        try:
            p = os.path.join(d, 'x')
            with open(p, 'wb') as f:
                s.to_pickle(f)
            t = E.get(S).from_pickle(p, rng=E.rng())
        finally:
            shutil.rmtree(d)
    check_restored(E, st, s, t, 'pickle')


@bounded('C18', 'state/conditional', [
    S + '.__init__', S + '.to_metadata', S + '.from_metadata',
    S + '.update_cctype'], trials=25,
    bound='8 rows, 3 normal columns in one view, one a linear regression')
def _(E):
    st = St(E, n=8, cols=3, types=('normal',), pnan=0., views=1)
    s = st.state
    c = st.cols[int(E.r.randint(3))]
    o = [x for x in st.cols if x != c]
    s.update_cctype(c, 'linear_regression')
    E.ensure('a state with a regression is composite',
             bool(s.is_composite()))
    d = {'metadata': through_metadata, 'json': through_json}[E.choice(
        'via', ['metadata', 'json'])](s.to_metadata())
    t = E.get(S).from_metadata(d, rng=E.rng())
    E.ensure('the restored state is composite', bool(t.is_composite()))
    E.ensure('kinds are restored', list(t.cctypes()) == list(s.cctypes()))
    for _ in range(3):
        x = dict((k, float(E.r.normal())) for k in o)
        y = {c: float(E.r.normal())}
        E.ensure_eq('the regression is restored', t.logpdf(-1, y, x),
                    s.logpdf(-1, y, x))
        y.update(x)
        E.ensure_eq('joint queries', t.logpdf(-1, y), s.logpdf(-1, y))
    E.ensure('simulation is answered', set(t.simulate(-1, st.cols))
             == set(st.cols))
    E.ensure_eq('the score is the same', t.logpdf_score(), s.logpdf_score())


@bounded('C18', 'view', [V + '.to_metadata', V + '.from_metadata'],
         trials=80, bound='up to 6 rows, 3 columns of 8 kinds')
def _(E):
    m = Mix(E, cols=int(E.r.randint(1, 4)))
    v = m.view
    if E.r.randint(2):
        for d in v.dims.values():
            d.transition_hyper_grids(m.X[d.index])
        v.transition(N=1)
    d = {'metadata': through_metadata, 'json': through_json}
    meta = v.to_metadata()
    if E.r.randint(2):
        # json turns the integer keys of the table into strings
        meta = dict(through_json(dict(meta, X=0)), X=copy.deepcopy(m.X))
    else:
        meta = through_metadata(meta)
    mod = __import__('importlib').import_module(meta['factory'][0])
    E.ensure('the factory rebuilds the view', getattr(
        mod, meta['factory'][1]) is E.get(V))
    w = E.get(V).from_metadata(meta, rng=E.rng())
    a, b = view_state(v), view_state(w)
    E.ensure('the view is restored', same(norm(a), norm(b)), (a, b))
    q, c = m.split()
    q, c = m.some_cells(q), m.some_cells(c)
    if q:
        E.ensure_eq('queries are answered as before',
                    w.logpdf(-1, dict(q), dict(c)),
                    v.logpdf(-1, dict(q), dict(c)))
    E.ensure_eq('the score is the same', w.logpdf_score(), v.logpdf_score())


@bounded('C18', 'engine', [EN + '.to_metadata', EN + '.from_metadata',
                           EN + '.to_pickle', EN + '.from_pickle'],
         trials=25, bound=BOUND + ', up to 3 states')
def _(E):
    st = St(E, build=False, n=int(E.r.randint(2, 6)))
    k = int(E.r.randint(1, 4))
    X = np.array([[float(st.X[c][i]) for c in st.cols]
                  for i in range(st.n)])
    e = E.get(EN)(X, num_states=k, rng=E.rng(), multiprocess=0,
                  outputs=list(st.cols), cctypes=list(st.cctypes),
                  distargs=[None if d is None else dict(d)
                            for d in st.distargs])
    e.transition(N=1, progress=False, checkpoint=E.choice('c', [None, 1]),
                 multiprocess=0)
    how = E.choice('via', ['metadata', 'json', 'pickle'])
    if how == 'pickle':
        f = io.BytesIO()
        e.to_pickle(f)
        f.seek(0)
        # every worker process returns its state
        t = E.get(EN).from_pickle(f, rng=E.rng())
    else:
        m = e.to_metadata()
        E.ensure('the table is saved once', 'X' in m and not any(
            'X' in x for x in m['states']))
        t = E.get(EN).from_metadata(
            {'metadata': through_metadata, 'json': through_json}[how](m),
            rng=E.rng(), multiprocess=0)
    E.ensure('every state is restored', t.num_states() == k)
    for i in range(k):
        check_restored(E, st, e.get_state(i), t.get_state(i), how)
