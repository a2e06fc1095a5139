"""C29: inference by an outside engine (crosscat/lovecat.py, crosscat/
loomcat.py).  The outside packages are not part of the repository: they are
stood for by stubs that record what they are given and answer with arbitrary
partitions."""
import csv
import json
import math
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from specs import exactlaw, mixlib
from specs.mixlib import St, isnan, same, state_state
from specs.states import check_state
from specs.statestubs import BASE, StateWorld, StubDim
from vf.spec import unit, bounded, Stub

L = 'cgpm.crosscat.lovecat'
M = 'cgpm.crosscat.loomcat'
S = 'cgpm.crosscat.state:State'
VE = (ValueError,)
TWO = ('normal', 'categorical')
BOUND = 'up to 5 rows and 4 columns in any views, missing cells'


# --------------------------------------------------------------------------
# The outside package of lovecat.

class LocalEngine(object):
    """Records the calls; answers with the partitions of `answer`."""
    calls, seeds, answer = [], [], None

    def __init__(self, seed=None):
        LocalEngine.seeds.append(seed)

    def analyze(self, M_c, T, X_L, X_D, seed, **k):
        LocalEngine.calls.append(((M_c, T, X_L, X_D, seed), k))
        return LocalEngine.answer(M_c, T, X_L, X_D, k)


def groups(pairs):
    """The components of the graph of the pairs, for each of its nodes."""
    out = {}
    for a, b in pairs:
        g = set(out.get(a, [a])) | set(out.get(b, [b]))
        for x in g:
            out[x] = g
    return dict((a, sorted(g)) for a, g in out.items())


def crosscat_package():
    pk = types.ModuleType('crosscat')
    pk.__path__ = []
    le = types.ModuleType('crosscat.LocalEngine')
    le.LocalEngine = LocalEngine
    ut = types.ModuleType('crosscat.utils')
    ut.__path__ = []
    gu = types.ModuleType('crosscat.utils.general_utils')
    gu.get_scc_from_tuples = groups
    pk.LocalEngine, pk.utils, ut.general_utils = le, ut, gu
    for m in (pk, le, ut, gu):
        sys.modules[m.__name__] = m
    LocalEngine.calls, LocalEngine.seeds = [], []
    LocalEngine.answer = None


def lov(E):
    crosscat_package()
    return E.mod(L)


def lstate(E, **k):
    st = St(E, types=TWO, **k)
    # the rows of a view in another order than they were added
    if E.flag('shuffled'):
        for v in sorted(st.state.views):
            shuffle(E, st, v)
    return st


def shuffle(E, st, v):
    """As a Gibbs sweep of the rows leaves a view: every row is taken out of
    its cluster and put back."""
    view = st.state.views[v]
    keep = dict(view.Zr())
    for i in E.r.permutation(st.n):
        i = int(i)
        view.crp.unincorporate(i)
        view.crp.incorporate(i, {view.outputs[0]: keep[i]}, {-1: 0})
    E.ensure('the shuffled view', dict(view.Zr()) == keep)


def recorded(obj, name, log):
    """A method of the object that is only recorded."""
    import inspect
    sig = inspect.signature(getattr(type(obj), name))

    def call(*a, **k):
        b = sig.bind(obj, *a, **k)
        b.apply_defaults()
        log.append((name, dict(b.arguments)))
    setattr(obj, name, call)


class Numbers(object):
    """A generator whose integers are recorded."""

    def __init__(self, rng):
        self.rng, self.numbers = rng, []

    def __getattr__(self, name):
        return getattr(self.rng, name)

    def randint(self, *a, **k):
        self.numbers.append(self.rng.randint(*a, **k))
        return self.numbers[-1]


def lowest(labels):
    """Contiguous codes from 0."""
    return sorted(set(labels)) == list(range(len(set(labels))))


def check_table(E, st, Mc, T):
    cols = st.cols
    names = [Mc['idx_to_name'][str(i)] for i in range(len(cols))]
    E.ensure('one name per column', len(set(names)) == len(cols) == len(
        Mc['idx_to_name']))
    E.ensure('names and indices are inverse', dict(
        Mc['name_to_idx']) == dict((n, i) for i, n in enumerate(names)))
    E.ensure('the names are those of the columns',
             names == ['c%d' % (c,) for c in cols])
    meta = Mc['column_metadata']
    E.ensure('one description per column', len(meta) == len(cols))
    E.ensure('one row per row', len(T) == st.n and all(
        len(r) == len(cols) for r in T))
    for i, c in enumerate(cols):
        m, x = meta[i], st.X[c]
        if st.cctypes[i] == 'normal':
            E.ensure('the model of a number', m['modeltype'] ==
                     'normal_inverse_gamma')
            E.ensure('a number has no codes', m['code_to_value'] == {} and
                     m['value_to_code'] == {})
            for r in range(st.n):
                E.ensure('a number is itself', same(float(T[r][i]),
                                                    float(x[r])))
            continue
        seen = sorted(set(int(y) for y in x if not isnan(y)))
        E.ensure('the model of a category', m['modeltype'] ==
                 'symmetric_dirichlet_discrete')
        E.ensure('each observed category has its code, from 0 on',
                 sorted(m['code_to_value']) == sorted(map(str, seen)) and
                 sorted(m['code_to_value'].values()) == list(
                     range(len(seen))))
        E.ensure('and each code its category', m['value_to_code'] == dict(
            (str(k), v) for v, k in m['code_to_value'].items()))
        for r in range(st.n):
            if isnan(x[r]):
                E.ensure('a missing cell stays missing', isnan(T[r][i]))
            else:
                E.ensure_eq('a category has its code', T[r][i],
                            m['code_to_value'][str(int(x[r]))])


def check_structure(E, st, XL, XD):
    """What the state says of its partitions."""
    s, cols = st.state, st.cols
    a = list(XL['column_partition']['assignments'])
    E.ensure('views are coded from 0', len(a) == len(cols) and lowest(a)
             and len(XD) == len(set(a)) == len(XL['view_state']))
    E.ensure('columns share a view as they do in the state',
             exactlaw.canon(a) == exactlaw.canon([st.Zv[c] for c in cols]))
    E.ensure_eq('the sizes of the views', list(
        XL['column_partition']['counts']), [a.count(i) for i in range(
            len(XD))])
    E.ensure_eq('the concentration of the columns',
                XL['column_partition']['hypers']['alpha'], s.alpha())
    for i, (z, vs) in enumerate(zip(XD, XL['view_state'])):
        mine = [c for c, k in zip(cols, a) if k == i]
        view = s.view_for(mine[0])
        E.ensure('clusters are coded from 0', len(z) == st.n and lowest(z))
        E.ensure('rows share a cluster as they do in the view',
                 exactlaw.canon(list(z)) == exactlaw.canon(
                     [view.Zr(r) for r in range(st.n)]),
                 (z, dict(view.Zr())))
        E.ensure('the columns of the view', sorted(
            vs['column_names']) == sorted('c%d' % (c,) for c in mine))
        p = vs['row_partition_model']
        E.ensure_eq('the sizes of its clusters', list(p['counts']),
                    [list(z).count(k) for k in range(len(set(z)))])
        E.ensure_eq('the concentration of its rows', p['hypers']['alpha'],
                    view.alpha())
        q = vs['column_component_suffstats']
        E.ensure('room for the statistics of each column and cluster',
                 [len(x) for x in q] == [len(set(z))] * len(mine))
    E.ensure('hyperparameters of each column', len(XL['column_hypers'])
             == len(cols))
    for i, c in enumerate(cols):
        h, g = XL['column_hypers'][i], s.dim_for(c).hypers
        if st.cctypes[i] == 'normal':
            E.ensure_eq('the hyperparameters of a number',
                        [h['mu'], h['nu'], h['r'], h['s']],
                        [g['m'], g['nu'], g['r'], g['s']])
        else:
            seen = set(y for y in st.X[c] if not isnan(y))
            E.ensure_eq('the hyperparameters of a category',
                        [h['dirichlet_alpha'], h['K']],
                        [g['alpha'], len(seen)])


@bounded('C29', 'lovecat/export', [
    L + ':_crosscat_M_c', L + ':_crosscat_T', L + ':_crosscat_X_D',
    L + ':_crosscat_X_L'], trials=200, bound=BOUND)
def _(E):
    """What the outside engine is given says what the state says."""
    m = lov(E)
    st = lstate(E)
    before = state_state(st.state)
    Mc = m._crosscat_M_c(st.state)
    T = m._crosscat_T(st.state, Mc)
    XD = m._crosscat_X_D(st.state, Mc)
    XL = m._crosscat_X_L(st.state, Mc, XD)
    check_table(E, st, Mc, T)
    check_structure(E, st, XL, XD)
    E.ensure('no constraint that the state has not', not XL['col_ensure'])
    E.ensure('the state is not changed', same(before,
                                              state_state(st.state)))


@bounded('C29', 'lovecat/constraints', [L + ':_crosscat_X_L'], trials=60,
         bound='up to 4 columns')
def _(E):
    """The constraints name the columns by their position, as all else."""
    m = lov(E)
    st = lstate(E, cols=4)
    s, cols = st.state, st.cols
    kind = E.choice('kind', ['dependent', 'independent', 'both'])
    o = [int(i) for i in E.r.permutation(4)]
    # by position; the state is told of the columns
    Cd = [o[:E.int('block', lo=2, hi=4)]] if kind != 'independent' else []
    Ci = [(o[0], o[3])] if kind != 'dependent' else []
    if kind == 'independent' and E.flag('two'):
        Ci.append((o[1], o[3]))
    s.Cd = [[cols[i] for i in b] for b in Cd]
    s.Ci = [(cols[i], cols[j]) for i, j in Ci]
    E.note('Cd, Ci', (s.Cd, s.Ci))
    Mc = m._crosscat_M_c(s)
    XD = m._crosscat_X_D(s, Mc)
    e = m._crosscat_X_L(s, Mc, XD)['col_ensure']
    E.ensure('the kinds of constraints', set(e) == set(
        k for k, v in (('dependent', Cd), ('independent', Ci)) if v))
    if Cd:
        E.ensure('the dependent columns', dict(
            (k, sorted(v)) for k, v in e['dependent'].items()) == dict(
                (str(i), sorted(b)) for b in Cd for i in b))
    if Ci:
        E.ensure('the independent columns', dict(
            (k, sorted(v)) for k, v in e['independent'].items()) == dict(
                (str(k), v) for k, v in groups(Ci).items()))


def some_answer(E, st):
    """Partitions as the engine may return them."""
    n, c = st.n, len(st.cols)
    k = int(E.r.randint(1, c + 1))
    a = list(range(k)) + [int(E.r.randint(k)) for _ in range(c - k)]
    E.r.shuffle(a)
    XD, views = [], []
    for _ in range(k):
        q = int(E.r.randint(1, n + 1))
        z = list(range(q)) + [int(E.r.randint(q)) for _ in range(n - q)]
        E.r.shuffle(z)
        XD.append([int(x) for x in z])
        views.append({'row_partition_model': {
            'counts': [z.count(i) for i in range(q)],
            'hypers': {'alpha': float(E.r.gamma(2.) + .05)}}})
    XL = {'column_partition': {
        'assignments': [int(x) for x in a],
        'counts': [a.count(i) for i in range(k)],
        'hypers': {'alpha': float(E.r.gamma(2.) + .05)}},
        'view_state': views, 'column_hypers': [{} for _ in st.cols]}
    E.note('answer', (XL['column_partition']['assignments'], XD))
    return XL, XD


def check_answer(E, st, XL, XD, what, alphas=True):
    """The state has the partitions of the answer."""
    s, cols = st.state, st.cols
    a = XL['column_partition']['assignments']
    E.ensure(what + ': columns share a view as the engine says',
             exactlaw.canon([s.Zv(c) for c in cols]) == exactlaw.canon(a))
    for c, i in zip(cols, a):
        z = s.view_for(c).Zr()
        E.ensure(what + ': rows share a cluster as the engine says',
                 exactlaw.canon([z[r] for r in range(st.n)])
                 == exactlaw.canon(XD[i]))
        if alphas:
            E.ensure_eq(what + ': the concentration of the rows',
                        s.view_for(c).alpha(), XL['view_state'][i][
                            'row_partition_model']['hypers']['alpha'])
    if alphas:
        E.ensure_eq(what + ': the concentration of the columns', s.alpha(),
                    XL['column_partition']['hypers']['alpha'])
    check_state(E, st, s, what)


@bounded('C29', 'lovecat/import', [L + ':_update_state'], trials=150,
         bound=BOUND)
def _(E):
    """The partitions that the outside engine returns are taken over."""
    m = lov(E)
    st = lstate(E)
    s = st.state
    Mc = m._crosscat_M_c(s)
    for step in range(int(E.r.randint(1, 3))):
        hyp = dict((c, dict(s.dim_for(c).hypers)) for c in st.cols)
        XL, XD = some_answer(E, st)
        m._update_state(s, Mc, XL, XD)
        check_answer(E, st, XL, XD, 'import %d' % (step + 1,))
        for c in st.cols:
            E.ensure_eq('the hyperparameters stay',
                        dict(s.dim_for(c).hypers), hyp[c])


@bounded('C29', 'lovecat/round trip', [L + ':transition'], trials=80,
         bound=BOUND)
def _(E):
    """An engine that changes nothing changes nothing."""
    m = lov(E)
    st = lstate(E)
    s = st.state
    LocalEngine.answer = lambda Mc, T, XL, XD, k: (XL, XD)
    valpha = dict((c, s.view_for(c).alpha()) for c in st.cols)
    al = s.alpha()
    m.transition(s, N=1, progress=False)
    E.ensure('columns stay together', exactlaw.canon(
        [s.Zv(c) for c in st.cols]) == exactlaw.canon(
            [st.Zv[c] for c in st.cols]))
    for c in st.cols:
        E.ensure('rows stay together', exactlaw.canon(
            [s.view_for(c).Zr(r) for r in range(st.n)]) == exactlaw.canon(
                st.Zrv[st.Zv[c]]))
        E.ensure_eq('concentrations stay', s.view_for(c).alpha(), valpha[c])
    E.ensure_eq('concentrations stay', s.alpha(), al)
    check_state(E, st, s, 'no change')


@bounded('C29', 'lovecat/transition', [
    L + ':transition', L + ':_update_diagnostics', S + '.transition_lovecat'],
    trials=150, bound=BOUND)
def _(E):
    """The engine is asked for what the caller asked for."""
    m = lov(E)
    st = lstate(E)
    s, cols = st.state, st.cols
    XL, XD = some_answer(E, st)
    steps = E.int('checkpoints', lo=1, hi=4)
    chains = E.int('chains', lo=1, hi=3)
    diag = {'logscore': E.r.normal(size=(steps, chains)),
            'column_crp_alpha': E.r.gamma(1., size=(steps, chains)),
            'column_partition_assignments': E.r.randint(
                0, 4, size=(len(cols), steps, chains))}

    def answer(Mc, T, XLo, XDo, k):
        check_table(E, st, Mc, T)
        check_structure(E, st, XLo, XDo)
        return (XL, XD, diag) if k.get('do_diagnostics') else (XL, XD)
    LocalEngine.answer = answer
    N = E.choice('N', [None, 1, 7])
    T = E.choice('S', [None, 2.5])
    kernels = E.choice('kernels', [None, (), ['row_partition_assignments']])
    some = [c for c in cols if E.r.randint(2)]
    E.r.shuffle(some)
    which = E.choice('cols', [None, some])
    rows = E.choice('rowids', [None, [0], list(range(st.n))])
    every = E.choice('checkpoint', [None, 2])
    progress = E.choice('progress', [None, True, False])
    seed = E.choice('seed', [None, 4, 99])
    via = E.flag('by the state')
    E.note('call', (N, T, kernels, which, rows, every, progress, seed, via))
    old = dict((k, list(v)) for k, v in s.diagnostics.items()
               if k != 'iterations')
    kw = dict(N=N, S=T, kernels=kernels, rowids=rows, cols=which,
              progress=progress, checkpoint=every)
    if via:
        s.rng = Numbers(s.rng)
        steps_after = []
        for k in ('transition_dim_hypers', 'transition_crp_alpha',
                  'transition_view_alphas'):
            recorded(s, k, steps_after)
        s.transition_lovecat(**kw)
        E.ensure('the numbers are updated after the partitions', sorted(
            k[0] for k in steps_after) == ['transition_crp_alpha', 'transition_dim_hypers',
                             'transition_view_alphas'])
    else:
        m.transition(s, seed=seed, **kw)
    E.ensure('one run', len(LocalEngine.calls) == 1 == len(
        LocalEngine.seeds))
    (Mc, Tab, XLo, XDo, sd), k = LocalEngine.calls[0]
    E.ensure('a seed', isinstance(sd, (int, np.integer)) and sd ==
             LocalEngine.seeds[0] and (
                 via or sd == (1 if seed is None else seed)))
    if via:
        E.ensure('the seed is drawn from the state', sd in s.rng.numbers)
    E.ensure('the kernels', list(k['kernel_list']) == list(kernels or ()))
    E.ensure('the columns, by position', list(k['c']) == [
        cols.index(c) for c in which or ()])
    E.ensure('the rows', list(k['r']) == list(rows or ()))
    E.ensure('the number of steps', k['n_steps'] == (
        N if N is not None else 1) if T is None or N is not None
        else k['n_steps'] >= 10000)
    E.ensure('the time', k['max_time'] == (-1 if T is None else T))
    E.ensure('progress', callable(k['progress']) if progress in (
        None, True) else not k['progress'])
    E.ensure('diagnostics when asked for', bool(k.get('do_diagnostics'))
             == (every is not None) and (
                 every is None or k['diagnostics_every_N'] == every))
    check_answer(E, st, XL, XD, 'the run', alphas=not via)
    new = dict((n, list(v)) for n, v in s.diagnostics.items()
               if n != 'iterations')
    if every is None:
        E.ensure('no diagnostics', same(old, new))
        return
    E.ensure_eq('the scores', new['logscore'], old.get('logscore', [])
                + [float(x) for x in diag['logscore'].ravel()])
    E.ensure_eq('the concentrations', new['column_crp_alpha'],
                old.get('column_crp_alpha', [])
                + [float(x) for x in diag['column_crp_alpha'].ravel()])
    E.ensure('the partitions of the columns', [
        [tuple(p) for p in q] for q in new['column_partition']] == [
        [tuple(p) for p in q] for q in old.get('column_partition', [])] + [
        [(c, int(diag['column_partition_assignments'][i][t][0]))
         for i, c in enumerate(cols)] for t in range(steps)])


@bounded('C29', 'lovecat/reject', [S + '.transition_lovecat'], trials=30,
         bound=BOUND)
def _(E):
    """A state that the engine cannot hold is not given to it."""
    lov(E)
    st = St(E, types=mixlib.COLLAPSED)
    s = st.state
    if all(t in TWO for t in st.cctypes):
        return
    before = state_state(s)
    LocalEngine.answer = lambda *a: E.ensure('the engine is not run', False)
    E.raises(VE, lambda: s.transition_lovecat(N=1, progress=False),
             'a column of another type')
    E.ensure('the state is not changed', same(before, state_state(s)))


# --------------------------------------------------------------------------
# The outside package of loomcat.

class Loom(object):
    """Files and samples of a project, in memory."""

    def __init__(self):
        self.calls, self.samples, self.features = [], {}, []


LOOM = None


class Kind(object):
    def __init__(self, ids):
        self.featureids = list(ids)


class CrossCat(object):
    def ParseFromString(self, text):
        k = json.loads(text)
        self.kinds = [Kind(x) for x in k]


class Assigned(object):
    def __init__(self, rowid, groups):
        self.rowid, self.g = rowid, groups

    def groupids(self, k):
        return self.g[k]


def loom_package():
    global LOOM
    LOOM = Loom()
    if getattr(sys.modules.get('loom'), 'stub', False):
        return
    sys.modules.pop(M, None)
    mods = {}
    for n in ('loom', 'loom.cleanse', 'loom.tasks', 'loom.cFormat',
              'loom.schema_pb2', 'distributions', 'distributions.io',
              'distributions.io.stream'):
        m = mods[n] = types.ModuleType(n)
        m.__path__ = []
        if '.' in n:
            p, c = n.rsplit('.', 1)
            setattr(mods[p], c, m)
        sys.modules[n] = m

    def record(name):
        def f(*a, **k):
            LOOM.calls.append((name, a, k))
        return f
    mods['loom'].stub = True
    mods['loom.cleanse'].force_ascii = record('force_ascii')
    for n in ('transform', 'ingest', 'infer_one', 'infer'):
        setattr(mods['loom.tasks'], n, record(n))

    class Stream(object):
        def __init__(self, path, mode='rb'):
            self.path = path

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def read(self):
            return json.dumps(sample(self.path, 'model.pb.gz')[0])
    mods['distributions.io.stream'].open_compressed = Stream

    def load(path):
        if not path.endswith(os.path.join('ingest', 'encoding.json.gz')):
            raise IOError(path)
        return [{'name': n} for n in LOOM.features]
    mods['distributions.io.stream'].json_load = load
    mods['loom.schema_pb2'].CrossCat = CrossCat
    mods['loom.cFormat'].assignment_stream_load = lambda p: [
        Assigned(r, g) for r, g in sample(p, 'assign.pbs.gz')[1]]


def sample(path, name):
    """The sample whose file is at the path."""
    for (root, i), v in LOOM.samples.items():
        if path == os.path.join(root, 'samples', 'sample.%d' % (i,), name):
            return v
    raise IOError('no such sample: %s' % (path,))


def loo(E):
    import builtins
    loom_package()
    m = E.mod(M)
    if not hasattr(m, 'real_map'):
        m.real_map = m.parallel_map
    m.parallel_map = m.real_map
    # the csv module of Python 2 writes to binary files
    m.open = lambda p, mode='r': builtins.open(
        p, mode.replace('b', ''), newline='')
    return m


class Store(object):
    """A scratch folder for the projects."""

    def __enter__(self):
        self.old = os.environ.get('CGPM_LOOM_STORE')
        self.path = tempfile.mkdtemp()
        os.environ['CGPM_LOOM_STORE'] = self.path
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path)
        if self.old is None:
            del os.environ['CGPM_LOOM_STORE']
        else:
            os.environ['CGPM_LOOM_STORE'] = self.old


def loom_sample(E, st, root, i):
    """A sample of the project: its features are in another order than the
    columns, its rows are written in any order, its kinds are partitions."""
    XL, XD = some_answer(E, st)
    a = XL['column_partition']['assignments']
    if not LOOM.features:
        order = [int(j) for j in E.r.permutation(len(st.cols))]
        LOOM.features = ['c%05d' % (st.cols[j],) for j in order]
    at = [[int(f[1:]) for f in LOOM.features].index(c) for c in st.cols]
    kinds = [[] for _ in XD]
    for j, k in enumerate(a):
        kinds[k].append(at[j])
    for k in kinds:
        E.r.shuffle(k)
    rows = [(int(r), [z[r] for z in XD]) for r in E.r.permutation(st.n)]
    LOOM.samples[root, i] = (kinds, rows)
    return XL, XD


@bounded('C29', 'loom/import', [
    M + ':_update_state', M + ':_retrieve_column_partition',
    M + ':_retrieve_featureid_to_cgpm', M + ':_retrieve_row_partitions',
    M + ':_loom_cross_cat'], trials=120, bound=BOUND + ', of 8 kinds')
def _(E):
    """The partitions of the sample are taken over."""
    m = loo(E)
    st = St(E)
    s = st.state
    for step in range(int(E.r.randint(1, 3))):
        i = E.int('sample', lo=0, hi=12)
        XL, XD = loom_sample(E, st, '/project/results', i)
        loom_sample(E, st, '/project/results', i + 1)
        hyp = dict((c, dict(s.dim_for(c).hypers)) for c in st.cols)
        al = s.alpha()
        got = m._update_state(s, '/project/results', i)
        E.ensure('the state itself', got is s)
        check_answer(E, st, XL, XD, 'import %d' % (step + 1,), alphas=False)
        E.ensure_eq('the concentration stays', s.alpha(), al)
        for c in st.cols:
            E.ensure_eq('the hyperparameters stay',
                        dict(s.dim_for(c).hypers), hyp[c])


def read_csv(path):
    with open(path, newline='') as f:
        return [r for r in csv.reader(f)]


def check_project(E, m, st, paths):
    data = read_csv(os.path.join(paths['raw'], 'data.csv'))
    names = ['c%05d' % (c,) for c in st.cols]
    E.ensure('the names of the columns', data[0] == names)
    E.ensure('one line per row', len(data) == st.n + 1)
    for r, line in enumerate(data[1:]):
        for c, text in zip(st.cols, line):
            x = st.X[c][r]
            E.ensure('a missing cell is empty', (text == '') == isnan(x),
                     (text, x))
            if text:
                E.ensure_eq('a cell is its value', float(text), float(x),
                            tol=1e-12)
    schema = read_csv(os.path.join(paths['raw'], 'schema.csv'))
    E.ensure('the header of the schema', schema[0] == ['Feature Name',
                                                       'Type'])
    cu = E.mod('cgpm.utils.config')
    E.ensure('the types of the columns', schema[1:] == [
        [n, cu.loom_stattype(t, d)] for n, t, d in zip(
            names, st.cctypes, st.distargs)])


@bounded('C29', 'loom/transition', [
    M + ':transition', M + ':initialize', M + ':_write_dataset',
    M + ':_write_schema', M + ':_generate_project_paths',
    M + ':_retrieve_loom_store', M + ':_generate_column_names',
    M + ':_generate_loom_stattypes', M + ':_validate_transition',
    S + '.transition_loom'], trials=60, bound=BOUND + ', of 8 kinds')
def _(E):
    """The table is written once, the engine runs, its sample is read."""
    m = loo(E)
    st = St(E)
    s = st.state
    E.ensure('no project yet', s._loom_path is None)
    before = state_state(s)
    with Store() as store:
        for bad in ({'S': 1}, {'kernels': []}, {'progress': True},
                    {'checkpoint': 1}):
            E.raises(VE, lambda: m.transition(s, N=1, **bad),
                     'what the engine does not have')
        E.ensure('a rejected call does nothing', not LOOM.calls and
                 not os.listdir(store) and same(before, state_state(s)))
        log = []
        recorded(s, 'transition', log)
        for step in range(2):
            N = E.choice('N', [None, 1, 5])
            seed = E.choice('seed', [None, 3])
            infer = sys.modules['loom.tasks'].infer_one
            ans = []

            def run(root, seed=None, config=None):
                infer(root, seed=seed, config=config)
                ans.append(loom_sample(E, st, root, seed))
            sys.modules['loom.tasks'].infer_one = run
            LOOM.calls[:] = []
            via = E.flag('by the state')
            if via:
                s.transition_loom(N=N, seed=seed)
            else:
                m.transition(s, N=N, seed=seed)
            sys.modules['loom.tasks'].infer_one = infer
            paths = s._loom_path
            E.ensure('the project is kept in the store', all(
                p.startswith(store) and os.path.isdir(p)
                for p in paths.values()))
            E.ensure('its directories are its own', len(set(
                map(os.path.normpath, paths.values()))) == len(paths)
                and all(os.path.normpath(p).startswith(
                    os.path.normpath(paths['root']))
                    for p in paths.values()))
            E.ensure('the steps', [c[0] for c in LOOM.calls] == (
                ['force_ascii', 'transform', 'ingest'] if step == 0
                else []) + ['infer_one'])
            if step == 0:
                check_project(E, m, st, paths)
                c = LOOM.calls
                E.ensure('the data are cleansed', c[0][1] == (
                    os.path.join(paths['raw'], 'data.csv'),
                    os.path.join(paths['cleansed'], 'data.csv.gz')))
                E.ensure('and transformed by the schema', c[1][1] == (
                    paths['results'], os.path.join(
                        paths['raw'], 'schema.csv'), paths['cleansed']))
                E.ensure('and ingested', c[2][1] == (paths['results'],))
            _, a, k = LOOM.calls[-1]
            E.ensure('the run', a == (paths['results'],) and k['seed'] == (
                seed or 0) and k['config'] == {'schedule': {
                    'extra_passes': N or 1}})
            check_answer(E, st, ans[0][0], ans[0][1], 'the run',
                         alphas=False)
            E.ensure('the numbers are updated after the partitions',
                     [sorted(x[1]['kernels']) for x in log] == (
                         [['alpha', 'column_hypers', 'column_params',
                           'view_alphas']] if via else []))
            log[:] = []


@bounded('C29', 'loom/engine', [M + ':transition_engine',
                                M + ':_update_state_mp'], trials=25,
         bound='up to 3 states of up to 5 rows and 4 columns')
def _(E):
    """Each state takes over its own sample; one project for all."""
    m = loo(E)
    st = St(E, build=False)
    k = E.int('states', lo=1, hi=4)
    states = [st.build() for _ in range(k)]
    m.parallel_map = lambda f, xs: [f(x) for x in xs]

    class Engine(object):
        def __init__(self):
            self.states = list(states)
            self.log = []

        def num_states(self):
            return len(self.states)

        def transition(self, N=None, kernels=None):
            self.log.append((N, sorted(kernels)))
    e = Engine()
    with Store() as store:
        E.raises(VE, lambda: m.transition_engine(e, N=1, S=1),
                 'what the engine does not have')
        E.ensure('a rejected call does nothing', not os.listdir(store))
        for step in range(2):
            N = E.choice('N', [None, 1, 5])
            ans = []
            infer = sys.modules['loom.tasks'].infer

            def run(root, sample_count=None, config=None):
                infer(root, sample_count=sample_count, config=config)
                for i in range(sample_count):
                    ans.append(loom_sample(E, st, root, i))
            sys.modules['loom.tasks'].infer = run
            LOOM.calls[:] = []
            m.transition_engine(e, N=N)
            sys.modules['loom.tasks'].infer = infer
            p = e.states[0]._loom_path
            E.ensure('one project for all', all(
                s._loom_path == p for s in e.states) and p is not None)
            E.ensure('it is made once', [c[0] for c in LOOM.calls] == (
                ['force_ascii', 'transform', 'ingest'] if step == 0
                else []) + ['infer'])
            if step == 0:
                check_project(E, m, st, p)
            _, a, kw = LOOM.calls[-1]
            E.ensure('one sample for each', a == (p['results'],) and kw == {
                'sample_count': k, 'config': {'schedule': {
                    'extra_passes': N or 1}}}, kw)
            E.ensure('as many states', len(e.states) == k == len(ans))
            for s, (XL, XD) in zip(e.states, ans):
                st.state = s
                check_answer(E, st, XL, XD, 'the run', alphas=False)
            E.ensure('the numbers are updated after the partitions',
                     [x[1] for x in e.log] == [[
                         'alpha', 'column_hypers', 'column_params',
                         'view_alphas']])
            e.log[:] = []


# --------------------------------------------------------------------------
# The import and the call, over the contracts of the parts of the state: any
# number of columns, rows, views and clusters.

class Listing(Stub):
    """A list of which length and items are known by contract."""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def __getitem__(self, i):
        return self.at(i)

    def _vf_len(self):
        return self.n

    __len__ = _vf_len


class RowsOf(Stub):
    """The partition of the rows in a view of the answer."""

    def __init__(self, n, v):
        self.n, self.v = n, v

    def _vf_len(self):
        return self.n

    def _vf_subst(self, pairs):
        from vf import coll
        return RowsOf(self.n, coll.subst(self.v, pairs))

    __len__ = _vf_len


class Fixed(StubDim):
    def name(self):
        return 'normal'


@unit('C29', 'lovecat/import/any', [L + ':_update_state'], trials=40)
def _(E):
    """Each view of the answer becomes a view with its rows, and each column
    goes to the view of its position."""
    m = lov(E)
    W = StateWorld(E)
    st = W.st
    E.pick('v', W.views)                # there is one
    n = E.length(W.Zv)
    out, pos = E.func('output', sort='int'), E.func('position', sort='int')
    if not E.symbolic:
        order = [int(c) for c in E.r.permutation(sorted(W.Zv))]
        out, pos = order.__getitem__, order.index
    E.assume_below(n, lambda i: E.And(E.has(W.Zv, out(i)),
                                      E.eq(pos(out(i)), i)))
    st.outputs = E.table('outputs', n, out)
    k = E.size('answer', lo=1)
    assign, alphas = E.func('assign', sort='int'), E.func('alpha', lo=0)
    if not E.symbolic:
        some = [int(E.r.randint(k)) for _ in range(n)]
        assign = some.__getitem__
    a = E.real('alpha', lo=0)
    XL = {'column_partition': {'assignments': Listing(n, assign),
                               'hypers': {'alpha': a}},
          'view_state': Listing(k, lambda i: {'row_partition_model': {
              'hypers': {'alpha': alphas(i)}}})}
    XD = E.table('X_D', k, lambda v: RowsOf(W.n, v))
    Mc = {'name_to_idx': Listing(n, None), 'column_metadata': Listing(
        n, lambda i: {'modeltype': 'normal_inverse_gamma'})}
    E.replace(st, 'n_rows', lambda: W.n)
    E.replace(st, 'cctypes', lambda: E.table('cctypes', n,
                                             lambda i: 'normal'))
    E.replace(st, 'dim_for', lambda c: Fixed(W, c))

    class NewView(Stub):
        def __init__(self, X, outputs=None, inputs=None, Zr=None, alpha=None,
                     cctypes=None, distargs=None, hypers=None, rng=None):
            E.ensure('a new view is over the table', X is st.X)
            E.ensure('it draws from the generator of the state',
                     rng is st.rng)
            E.ensure('its columns come later', not (
                inputs or cctypes or distargs or hypers))
            E.ensure_eq('its concentration is that of the answer', alpha,
                        alphas(Zr.v))
            self.v, self.outputs = Zr.v, outputs

        def __eq__(self, o):
            return isinstance(o, NewView) and str(self.v) == str(o.v)

        __hash__ = None

        def _vf_subst(self, pairs):
            return self
    E.patch(L + ':View', NewView)

    base = []

    def ident(v):
        return base[0] + v

    def append(view, identity):
        if not base:
            base.append(identity - view.v)
        E.ensure_eq('the views are named in order', identity,
                    ident(view.v))
        E.ensure_eq('the name of its cluster variable', view.outputs[0],
                    BASE + identity)
        E.ensure('its name is new', identity not in W.views)
        E.event('view', view.v, identity)
    E.replace(st, '_append_view', append)

    def move(v_a, v_b, dim, reassign):
        E.ensure_eq('the column leaves its view', v_a, W.z(dim.c))
        E.event('move', pos(dim.c), v_b)
    E.replace(st, '_migrate_dim', move)
    E.replace(st, '_check_partitions', lambda: None)
    try:
        m._update_state(st, Mc, XL, XD)
    except AssertionError:
        pass            # the old views are not removed by the contract
    E.ensure('nothing but views and columns', set(
        e[0] for e in E.events) <= set(['view', 'move']))
    E.ensure_each('every view of the answer becomes a view',
                  E.upto(k), 'view')
    E.ensure_each('every column goes to the view of its position',
                  E.upto(n), 'move', lambda i, v_b: E.eq(
                      v_b, ident(assign(i))))


@unit('C29', 'lovecat/call', [L + ':transition'], trials=60)
def _(E):
    """One run of the engine on the exported state; its answer is taken
    over, and its diagnostics if they were asked for."""
    m = lov(E)

    class State(Stub):
        outputs = [7, 2, 12]
    st = State()
    log = []
    Mc, T, XD, XL, XD2, XL2, diag = [Stub() for _ in range(7)]

    def part(name, out, want):
        def f(*a):
            E.ensure('what is exported', len(a) == len(want) and all(
                x is y for x, y in zip(a, want)))
            log.append(name)
            return out
        E.patch(L + ':_crosscat_' + name, f)
    part('M_c', Mc, (st,))
    part('T', T, (st, Mc))
    part('X_D', XD, (st, Mc))
    part('X_L', XL, (st, Mc, XD))

    def take(*a):
        E.ensure('the answer is taken over', len(a) == 4 and all(
            x is y for x, y in zip(a, (st, Mc, XL2, XD2))))
        log.append('take')
    E.patch(L + ':_update_state', take)

    def notes(*a):
        E.ensure('the diagnostics of the run', len(a) == 2 and
                 a[0] is st and a[1] is diag)
        log.append('notes')
    E.patch(L + ':_update_diagnostics', notes)

    def answer(a, b, c, d, k):
        E.ensure('the exported state is given', a is Mc and b is T and
                 c is XL and d is XD)
        log.append('run')
        return (XL2, XD2, diag) if every is not None else (XL2, XD2)
    LocalEngine.answer = answer
    N = E.int('N', lo=1) if E.flag('N given') else None
    S_ = E.real('S', lo=0) if E.flag('S given') else None
    every = E.int('every', lo=1) if E.flag('checkpoints') else None
    seed = E.int('seed', lo=1) if E.flag('seed given') else None
    cols = E.choice('cols', [None, [], [12], [12, 7], [2, 12, 7]])
    kernels, rows, progress = E.choice('rest', [
        (None, None, None), (['a', 'b'], [3, 1], False)])
    m.transition(st, N=N, S=S_, kernels=kernels, rowids=rows, cols=cols,
                 seed=seed, checkpoint=every,
                 progress=progress)
    E.ensure('export, run, take over', log == [
        'M_c', 'T', 'X_D', 'X_L', 'run', 'take'] + (
            ['notes'] if every is not None else []))
    E.ensure('one run', len(LocalEngine.calls) == 1)
    (_, _, _, _, sd), k = LocalEngine.calls[0]
    E.ensure_eq('the seed', sd, 1 if seed is None else seed)
    E.ensure_eq('the seed', LocalEngine.seeds[0], sd)
    if S_ is None or N is not None:
        E.ensure_eq('the number of steps', k['n_steps'],
                    1 if N is None else N)
    else:
        E.ensure('steps without number', k['n_steps'] >= 10000)
    E.ensure_eq('the time', k['max_time'], -1 if S_ is None else S_)
    if every is not None:
        E.ensure('diagnostics', k['do_diagnostics'])
        E.ensure_eq('at the checkpoints', k['diagnostics_every_N'], every)
    else:
        E.ensure('no diagnostics', not k.get('do_diagnostics'))
    E.ensure('the columns, by position', list(k['c']) == [
        State.outputs.index(c) for c in cols or ()])
    E.ensure('kernels and rows', list(k['kernel_list']) == list(
        kernels or ()) and list(k['r']) == list(rows or ()))


# The module of Loom can only be loaded beside a stand-in for the package.
loom_package()
