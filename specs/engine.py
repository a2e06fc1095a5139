"""C19: an ensemble of states acts as each of its states."""
import inspect
import itertools
import math

import numpy as np

from specs import mixlib
from specs.mixlib import St, same, state_state
from vf.spec import unit, bounded, Stub

EN = 'cgpm.crosscat.engine'
E_ = EN + ':Engine'
ST = 'cgpm.crosscat.state:State'
ANY = (Exception,)

# engine method -> its arguments (in the documented order); each is passed to
# the argument of the same name of the same method of every state
QUERY = dict(
    logpdf=['rowid', 'targets', 'constraints', 'inputs', 'accuracy'],
    logpdf_bulk=['rowids', 'targets_list', 'constraints_list',
                 'inputs_list'],
    logpdf_score=[], logpdf_likelihood=[],
    simulate=['rowid', 'targets', 'constraints', 'inputs', 'N', 'accuracy'],
    simulate_bulk=['rowids', 'targets_list', 'constraints_list',
                   'inputs_list', 'Ns'],
    mutual_information=['col0', 'col1', 'constraints', 'T', 'N',
                        'progress'],
    dependence_probability=['col0', 'col1'],
    dependence_probability_pairwise=['colnos'],
    row_similarity=['row0', 'row1', 'cols'],
    row_similarity_pairwise=['cols'],
    relevance_probability=['rowid_target', 'rowid_query', 'col',
                           'hypotheticals'])
RANDOM = ('simulate', 'simulate_bulk', 'mutual_information')
CHANGE = dict(
    transition=['N', 'S', 'kernels', 'rowids', 'cols', 'views', 'progress',
                'checkpoint'],
    transition_lovecat=['N', 'S', 'kernels', 'rowids', 'cols', 'progress',
                        'checkpoint'],
    transition_foreign=['N', 'S', 'cols', 'progress'],
    incorporate_dim=['T', 'outputs', 'inputs', 'cctype', 'distargs', 'v'],
    unincorporate_dim=['col'],
    incorporate=['rowid', 'observation', 'inputs'],
    incorporate_bulk=['rowids', 'observations', 'inputs'],
    unincorporate=['rowid'],
    force_cell=['rowid', 'observation'],
    force_cell_bulk=['rowids', 'queries'],
    update_cctype=['col', 'cctype', 'distargs'])
RENAME = {('relevance_probability', 'rowid_target'): 'rowid_target'}


class Value(object):
    """A marked argument."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


class Rng(Stub):
    def __init__(self, E, key):
        self.E, self.key = E, key

    def seed(self, x):
        self.E.event('seed', self.key, x)


def stub_states(E, method, names, lo=0):
    """States whose answers are arbitrary; a call must pass the arguments by
    their names."""
    answer = E.func('answer_' + method)
    real = getattr(E.get(ST), method)
    sig = inspect.signature(real)
    want = {}

    def call(self, *a, **k):
        b = sig.bind(None, *a, **k).arguments
        b = dict(list(b.items())[1:])
        for n in names:
            E.ensure('%s receives %s' % (method, n), b.get(n) is want[n],
                     (n, b.get(n)))
        for n in b:
            d = sig.parameters[n].default
            E.ensure('%s receives nothing else' % method,
                     n in names or b[n] is d or b[n] == d, n)
        E.event('call', self.key)
        return answer(self.key)

    class S(Stub):
        def __init__(self, key):
            self.key = key
            self.rng = Rng(E, key)
    setattr(S, method, call)
    states, m = E.object_list('states', S, lo=lo)
    for n in names:
        want[n] = Value(n)
    return states, m, answer, want


def engine(E, states):
    e = E.bare(E.get(E_))
    e.states = states
    return e


class SeedRng(Stub):
    """The generator of the engine: arbitrary seeds."""

    def __init__(self, E):
        self.E = E
        self.f = E.func('seed', sort='int', lo=0)
        self.calls = []

    def randint(self, low, high=None, size=None, dtype=None):
        self.E.ensure('seeds are drawn from the documented range',
                      low == 1 and high == 2 ** 32 - 1, (low, high))
        j = len(self.calls)
        self.calls.append(size)
        if isinstance(size, int):
            return [self.f(j, i) for i in range(size)]
        return self.E.table('seeds', size, lambda i: self.f(j, i))


def serial_map(E):
    """Contract of parallel_map (C23): the list of the results, in order."""
    E.stub(EN + ':parallel_map', lambda f, l: E.mapped(f, l))


def _query(name):
    args = QUERY[name]

    @unit('C19', 'query/' + name, [E_ + '.' + name], trials=20)
    def _(E):
        states, m, answer, want = stub_states(E, name, args)
        serial_map(E)
        e = engine(E, states)
        e.rng = rng = SeedRng(E)
        e_n = E.length(states)
        which = E.choice('statenos', ['all', 'some'])
        mp = E.choice('multiprocess', [0, 1]) if E.symbolic else 0
        kw = dict(want, multiprocess=mp)
        if which == 'some':
            E.assume(e_n > 0)
            some = E.seq('statenos', lambda k: E.int('s', lo=0, hi=e_n),
                         lo=1)
            r = getattr(e, name)(statenos=some, **kw)
            want_r = E.mapped(lambda s: answer(s), some)
        else:
            r = getattr(e, name)(**kw)
            want_r = E.mapped(lambda s: answer(s.key), states)
            if E.symbolic or True:
                E.ensure_each('every state is asked once', m, 'call')
        E.family_eq('%s lists the answers of the states in order' % name,
                    r, want_r)
        E.ensure('the states stay in place', e.states is states)
        if name in RANDOM:
            E.ensure_each('every state is seeded', m, 'seed',
                          lambda k, p: p == rng.f(0, k))
            E.ensure('one round of seeds', len(rng.calls) == 1)
        else:
            E.ensure('no seeds are drawn', len(rng.calls) == 0)


for _n in QUERY:
    _query(_n)


def _change(name):
    args = CHANGE[name]

    @unit('C19', 'change/' + name, [E_ + '.' + name], trials=20)
    def _(E):
        states, m, answer, want = stub_states(E, name, args)
        serial_map(E)
        e = engine(E, states)
        mp = E.choice('multiprocess', [0, 1]) if E.symbolic else 0
        n = E.length(states)
        getattr(e, name)(multiprocess=mp, **want)
        E.ensure_each('every state is changed once', m, 'call')
        E.ensure_eq('the number of states', E.length(e.states), n)
        E.family_eq('the states stay in order',
                    E.mapped(lambda s: s.key, e.states),
                    E.table('ids', n, lambda i: i))

    if name.startswith('transition'):
        @bounded('C19', 'change some/' + name, [E_ + '.' + name], trials=30,
                 bound='up to 5 states')
        def _(E):
            states, m, answer, want = stub_states(E, name, args, lo=1)
            e = engine(E, list(states))
            some = [i for i in range(len(states)) if E.r.randint(2)] or [0]
            E.r.shuffle(some)
            getattr(e, name)(multiprocess=0, statenos=some, **want)
            E.ensure('exactly the chosen states are changed', sorted(
                k for n, k, p in E.events if n == 'call') == sorted(some),
                E.events)
            E.ensure('the states stay in order', all(
                a is b for a, b in zip(e.states, states))
                and len(e.states) == len(states))


for _n in CHANGE:
    _change(_n)


@unit('C19', 'alter', [E_ + '.alter'], trials=20)
def _(E):
    states, m, answer, want = stub_states(E, 'transition', [])
    serial_map(E)
    e = engine(E, states)
    n = E.length(states)

    def f(s):
        E.event('f', s.key)
        return s

    def g(s):
        E.event('g', s.key)
        return s
    mp = E.choice('multiprocess', [0, 1]) if E.symbolic else 0
    e.alter([f, g], multiprocess=mp)
    E.ensure_each('every function is applied once to every state', m, 'f')
    E.ensure_each('every function is applied once to every state', m, 'g')
    E.family_eq('the states stay in order',
                E.mapped(lambda s: s.key, e.states),
                E.table('ids', n, lambda i: i))


@bounded('C19', 'alter/replace', [E_ + '.alter'], trials=40,
         bound='up to 5 states, 3 functions')
def _(E):
    n = int(E.r.randint(1, 6))
    e = engine(E, [(i,) for i in range(n)])
    fs = [lambda s, j=j: s + ('f%d' % j,) for j in
          range(int(E.r.randint(0, 4)))]
    some = E.choice('some', [None, 1])
    if some:
        some = [i for i in range(n) if E.r.randint(2)] or [n - 1]
        E.r.shuffle(some)
    e.alter(fs, statenos=some, multiprocess=0)
    done = range(n) if some is None else some
    E.ensure('the functions are applied in order to the chosen states',
             e.states == [(i,) + tuple('f%d' % j for j in range(len(fs)))
                          if i in done else (i,) for i in range(n)],
             e.states)


@unit('C19', 'access', [E_ + '.get_state', E_ + '.num_states'], trials=20)
def _(E):
    states, m, answer, want = stub_states(E, 'logpdf_score', [], lo=1)
    e = engine(E, states)
    n = E.length(states)
    E.ensure_eq('the number of states', e.num_states(), n)
    i = E.int('i', lo=0, hi=n)
    E.ensure_eq('a state is found by its index', e.get_state(i).key, i)


@bounded('C19', 'drop', [E_ + '.drop_state'], trials=20,
         bound='up to 5 states')
def _(E):
    n = int(E.r.randint(1, 6))
    l = [object() for _ in range(n)]
    e = engine(E, list(l))
    i = int(E.r.randint(n))
    e.drop_state(i)
    E.ensure('exactly the state is dropped', e.states == l[:i] + l[i + 1:])


# ---- real states

def real(E, n=None, k=None, **kw):
    st = St(E, build=False, n=n, **kw)
    k = int(E.r.randint(1, 4)) if k is None else k
    X = np.array([[float(st.X[c][i]) for c in st.cols]
                  for i in range(st.n)])
    e = E.get(E_)(X, num_states=k, rng=E.rng(), multiprocess=0,
                  outputs=list(st.cols), cctypes=list(st.cctypes),
                  distargs=[None if d is None else dict(d)
                            for d in st.distargs])
    return st, e


def table_of(st, s):
    return same(dict((c, list(x)) for c, x in s.X.items()), st.X) and \
        list(s.outputs) == st.cols and list(s.cctypes()) == st.cctypes and \
        all(d is None or dict(g) == d
            for g, d in zip(s.distargs(), st.distargs))


@bounded('C19', 'construct', [E_ + '.__init__', E_ + '.add_state',
                              E_ + '._get_seeds'], trials=30,
         bound='up to 4 rows and columns, 5 states')
def _(E):
    st, e = real(E)
    k = e.num_states()
    E.ensure('every state holds the table', all(
        table_of(st, s) for s in e.states))
    E.ensure('states have their own generators', len(set(
        id(s.rng) for s in e.states)) == k)
    old = list(e.states)
    j = int(E.r.randint(1, 3))
    e.add_state(j, multiprocess=0)
    E.ensure('the old states are kept', e.states[:k] == old)
    E.ensure('states are added', e.num_states() == k + j and all(
        table_of(st, s) for s in e.states))
    e.add_state(1, multiprocess=0, alpha=2.5)
    E.ensure_eq('options reach the new states', e.states[-1].alpha(), 2.5)
    for bad in ('X', 'outputs', 'cctypes', 'distargs'):
        E.raises((ValueError,), lambda: e.add_state(
            1, multiprocess=0, **{bad: None}), 'fixed: ' + bad)
    E.ensure('a rejected call adds nothing', e.num_states() == k + j + 1)


@bounded('C19', 'seeds', [E_ + '.__init__', E_ + '._seed_states'],
         trials=12, bound='3 states')
def _(E):
    seed = int(E.r.randint(1000))

    def build():
        s0 = E.r.get_state()
        st, e = real(E, n=3, k=3)
        E.r.set_state(s0)
        st, f = real(E, n=3, k=3)
        return st, e, f
    st, e, f = build()
    r0 = np.random.RandomState(seed)
    r1 = np.random.RandomState(seed)
    e.rng, f.rng = r0, r1
    for a, b in zip(e.states, f.states):
        a.rng.seed(5)
        b.rng.seed(77)
    t = [st.cols[0]]
    x = e.simulate(-1, t, N=4, multiprocess=0)
    y = f.simulate(-1, t, N=4, multiprocess=0)
    if all(same(state_state(a), state_state(b))
           for a, b in zip(e.states, f.states)):
        E.ensure('equal engines with equal generators draw equal samples',
                 same(x, y), (x, y))
    z = f.simulate(-1, t, N=4, multiprocess=0)
    cont = [i for i, c in enumerate(st.cols) if st.cctypes[i] in
            ('normal', 'exponential', 'lognormal', 'vonmises')]
    if 0 in cont:
        E.ensure('a second query draws new samples', not same(y, z))
        E.ensure('states draw different samples', not same(x[0], x[1]))


@bounded('C19', 'weighted', [E_ + '._likelihood_weighted_integrate'],
         trials=60, bound='up to 4 rows and columns, 3 states')
def _(E):
    st, e = real(E, n=int(E.r.randint(2, 5)))
    t, c = st.split()
    t, c = st.some_cells(t), st.some_cells(c)
    lp = e.logpdf(-1, dict(t), dict(c) or None, multiprocess=0)
    got = e._likelihood_weighted_integrate(lp, -1, dict(c) or None,
                                           multiprocess=0)
    w = e.logpdf(-1, dict(c), multiprocess=0) if c else [0.] * len(lp)
    m = max(w)
    W = [math.exp(x - m) for x in w]
    want = math.log(sum(a * math.exp(x) for a, x in zip(W, lp)) / sum(W)) \
        if any(math.exp(x) > 0 for x in lp) else float('-inf')
    E.ensure_eq('states are averaged with the likelihood of the constraints',
                got, want, 1e-6)


@bounded('C19', 'resample', [E_ + '._likelihood_weighted_resample'],
         trials=30, bound='up to 3 states, 3 samples each; every draw is '
         'enumerated')
def _(E):
    from specs.exactlaw import law
    k, N = E.r.choice([1, 2, 3]), E.r.choice([1, 2, 3])
    if k == 3 and N == 3:
        N = 2
    c = E.choice('constraints', [None, {0: 1}])
    w = [float(x) for x in E.r.normal(size=k)]
    some = E.flag('some states') and k > 1

    class S(Stub):
        def __init__(self, x):
            self.x = x

        def logpdf(self, rowid, targets, constraints=None, inputs=None,
                   accuracy=None):
            assert targets == {0: 1} and rowid == 7 and not constraints
            return self.x
    e = engine(E, [S(x) for x in w])
    at = sorted(E.r.permutation(k)[:k - 1]) if some else range(k)
    at = [int(i) for i in at]
    samples = [[(i, j) for j in range(N)] for i in at]

    def run(rng):
        e.rng = rng
        r = [tuple(x) for x in e._likelihood_weighted_resample(
            [list(s) for s in samples], 7, c, multiprocess=0,
            statenos=at if some else None)]
        E.ensure('N samples, none twice', len(r) == N and len(set(r)) == N
                 and set(r) <= set(x for s in samples for x in s), r)
        return tuple(sorted(r))
    L = law(run)
    p = np.exp([w[i] for i in at]) if c else np.ones(len(at))
    p = p / p.sum()
    for q, i in zip(p, at):
        E.ensure_eq('states are drawn in proportion to the likelihood of '
                    'the constraints', sum(m * sum(
                        x[0] == i for x in o) for o, m in L.items()),
                    N * q, 1e-9)
        for j in range(N):
            E.ensure_eq('every sample of a state is equally likely', sum(
                m for o, m in L.items() if (i, j) in o), q, 1e-9)
    for i in at:
        for n in range(N + 1):
            E.ensure_eq('draws are independent', sum(
                m for o, m in L.items() if sum(x[0] == i for x in o) == n),
                math.comb(N, n) * p[at.index(i)] ** n
                * (1 - p[at.index(i)]) ** (N - n), 1e-9)


@bounded('C19', 'compose', [E_ + '.compose_cgpm'], trials=15,
         bound='up to 3 states')
def _(E):
    st, e = real(E, types=('bernoulli',))
    T = E.get('cgpm.dummy.twoway:TwoWay')
    c = st.cols[0]
    gs = [T([400], [c], rng=E.rng()) for _ in e.states]
    e.compose_cgpm(gs, multiprocess=0)
    for s in e.states:
        h = list(s.hooked_cgpms.values())
        E.ensure('a model is hooked to every state', len(h) == 1
                 and h[0].outputs == [400] and h[0].inputs == [c]
                 and s.is_composite() and h[0].rng is s.rng)
    E.raises((ValueError,), lambda: e.add_state(1, multiprocess=0),
             'no states are added to a composite')
    lp = e.logpdf(-1, {400: 1}, {c: 1}, multiprocess=0)
    E.ensure_eq('hooked queries', list(lp),
                [math.log(.7)] * e.num_states())


@bounded('C19', 'processes', [E_ + '.transition', E_ + '.logpdf',
                              'cgpm.utils.parallel_map:parallel_map'],
         trials=3, bound='up to 3 states')
def _(E):
    st, e = real(E, n=4)
    import copy
    f = copy.deepcopy(e)
    ks = ['rows', 'columns', 'column_hypers']
    e.transition(N=2, kernels=ks, progress=False, multiprocess=0)
    f.transition(N=2, kernels=ks, progress=False, multiprocess=1)
    E.ensure('worker processes do what one process does', all(
        same(state_state(a), state_state(b))
        for a, b in zip(e.states, f.states)))
    t = st.some_cells(st.cols)
    E.ensure_eq('queries by worker processes', list(f.logpdf(
        -1, dict(t), multiprocess=1)), list(f.logpdf(-1, dict(t),
                                                     multiprocess=0)))


# ---- construction and storage, over the contract of the states

class Kept(Stub):
    """A state: what it is made of."""

    def __init__(self, how, *what):
        self.how, self.what = how, what
        self.rng = what[-1]

    def _vf_subst(self, pairs):
        from vf import coll
        return Kept(self.how, *[coll.subst(x, pairs) for x in self.what])


class Seeded(Stub):
    """The generator of a seed."""

    def __init__(self, seed):
        self.seed_ = seed

    def _vf_subst(self, pairs):
        from vf import coll
        return Seeded(coll.subst(self.seed_, pairs))


class Options(Stub):
    """Keyword arguments; values are compared by identity."""


def making(E):
    """The class of the states, replaced: what it is called with."""
    cls = E.get(EN + ':State')

    class Made(object):
        def __new__(c, *a, **k):
            b = inspect.signature(cls.__init__).bind(None, *a, **k)
            return Kept('new', dict(b.arguments), b.arguments.get('rng'))

        @classmethod
        def from_metadata(c, metadata, rng=None):
            return Kept('read', metadata, rng)
    E.patch(EN + ':State', Made)
    E.patch('cgpm.utils.general:gen_rng', lambda seed=None: Seeded(seed))
    E.patch(EN + ':parallel_map', lambda f, l: E.mapped(f, l))


@unit('C19', 'constructor', [E_ + '.__init__', EN + ':_intialize',
                             E_ + '._get_seeds'], trials=20)
def _(E):
    """Every state is made of the table and the options, with a generator of
    its own seed, which is drawn from the generator of the engine."""
    making(E)
    n = E.size('n', 0)
    rng = SeedRng(E)
    X = [[E.real('x0'), E.real('x1')]]
    mp = E.choice('multiprocess', [0, 1])
    options = E.choice('options', [{}, dict(
        cctypes=['a', 'b'], alpha=2.5, outputs=[4, 2])])
    e = E.get(E_)(X, num_states=n, rng=rng, multiprocess=mp, **options)
    E.ensure_eq('as many states as asked for', E.length(e.states), n)
    E.ensure('the generator of the engine', e.rng is rng)
    E.ensure('one seed for each state', len(rng.calls) == 1)
    E.ensure_eq('one seed for each state', rng.calls[0], n)
    if E.truth(n == 0):
        return
    i = E.int('i', lo=0, hi=n)
    s = e.states[i]
    a = s.what[0]
    E.ensure('a state is made of the options', dict(
        (k, v) for k, v in a.items() if k not in ('self', 'X', 'rng'))
        == options)
    for j in range(2):
        E.ensure_eq('a state holds the table', a['X'][0][j], X[0][j])
    E.ensure_eq('it has its own generator', a['rng'].seed_, rng.f(0, i))


@unit('C19', 'more states', [E_ + '.add_state', EN + ':_intialize',
                             E_ + '._get_seeds'], trials=20)
def _(E):
    """States are added of the same table, columns and types."""
    making(E)
    e = E.bare(E.get(E_))
    e.rng = SeedRng(E)
    X, kinds, args = [[1., 2.], [3., 4.]], ['a', 'b'], [None, {'k': 3}]
    composite = E.flag('composite')

    class S(Stub):
        outputs = [4, 2]

        def is_composite(self):
            return composite

        def data_array(self):
            return np.array(X)

        def cctypes(self):
            return list(kinds)

        def distargs(self):
            return list(args)
    old = [S() for _ in range(E.choice('states', [1, 2]))]
    e.states = list(old)
    n = E.choice('count', [None, 0, 1, 2])
    options = E.choice('options', [{}, dict(alpha=2.5)] + [
        {k: None} for k in ('X', 'outputs', 'cctypes', 'distargs')])
    kw = dict(options, multiprocess=E.choice('multiprocess', [0, 1]))
    if n is not None:
        kw['count'] = n
    bad = composite or not set(options) <= set(['alpha'])
    if bad:
        E.raises(ValueError, lambda: e.add_state(**kw),
                 'a composite state, or what is the same for all')
        E.ensure('nothing is added', e.states == old and not e.rng.calls)
        return
    e.add_state(**kw)
    n = 1 if n is None else n
    E.ensure('the old ones are kept', e.states[:len(old)] == old)
    E.ensure('as many as asked for', len(e.states) == len(old) + n)
    for i, s in enumerate(e.states[len(old):]):
        a = s.what[0]
        E.ensure('of the same table', [list(r) for r in a['X']] == X)
        E.ensure('columns, types and arguments', (
            a['outputs'], a['cctypes'], a['distargs']) == (
                [4, 2], kinds, args))
        E.ensure('and the options', dict(
            (k, v) for k, v in a.items() if k not in (
                'self', 'X', 'rng', 'outputs', 'cctypes', 'distargs'))
            == options)
        E.ensure_eq('with its own generator', a['rng'].seed_,
                    e.rng.f(0, i))


@unit('C18', 'an engine is read as it was written', [
    E_ + '.to_metadata', E_ + '.from_metadata', E_ + '.__init__'],
    trials=20)
def _(E):
    """Every state is written, and read with the table and a generator of
    its own seed, in order."""
    making(E)
    k = E.choice('states', [1, 2, 3])
    X = [[1., 2.], [3., 4.], [5., 6.]]
    what = [E.real('score%d' % i) for i in range(k)]

    class S(Stub):
        def __init__(self, i):
            self.i = i

        def data_array(self):
            return np.array(X)

        def to_metadata(self):
            return {'X': np.array(X).tolist(), 'i': self.i,
                    'score': what[self.i]}
    e = E.bare(E.get(E_))
    e.states = [S(i) for i in range(k)]
    md = e.to_metadata()
    E.ensure('the factory', E.get('%s:%s' % tuple(md['factory']))
             is E.get(E_))
    rng = SeedRng(E)
    f = E.get(E_).from_metadata(md, rng=rng, multiprocess=E.choice(
        'multiprocess', [0, 1]))
    E.ensure('an engine of the generator', isinstance(f, E.get(E_))
             and f.rng is rng)
    E.ensure('as many states', len(f.states) == k)
    for i, s in enumerate(f.states):
        m, g = s.what
        E.ensure('a state is read', s.how == 'read')
        E.ensure('the one written at its place', m['i'] == i)
        E.ensure_eq('as it was', m['score'], what[i])
        E.ensure('with the table', [list(r) for r in m['X']] == X)
        E.ensure_eq('with its own generator', g.seed_, rng.f(
            len(rng.calls) - 1, i))


@unit('C19', 'a model is hooked to every state', [
    E_ + '.compose_cgpm', EN + ':_compose'], trials=20)
def _(E):
    """Each state gets its own model, rebuilt from what was written of it,
    with the generator of the state."""
    import sys
    import types
    E.patch(EN + ':parallel_map', lambda f, l: E.mapped(f, l))
    k = E.choice('states', [1, 2, 3])
    log = []

    class S(Stub):
        def __init__(self, i):
            self.i, self.rng = i, Options()

        def compose_cgpm(self, g):
            log.append((self.i, g))

    class Model(Stub):
        def __init__(self, i):
            self.i = i

        def to_metadata(self):
            return {'i': self.i, 'factory': ('vf_hooked', 'Reader')}

    class Reader(object):
        @classmethod
        def from_metadata(cls, metadata, rng=None):
            return (metadata['i'], rng)
    m = types.ModuleType('vf_hooked')
    m.Reader = Reader
    sys.modules['vf_hooked'] = m
    try:
        e = E.bare(E.get(E_))
        states = [S(i) for i in range(k)]
        e.states = list(states)
        e.compose_cgpm([Model(i) for i in range(k)],
                       multiprocess=E.choice('multiprocess', [0, 1]))
    finally:
        del sys.modules['vf_hooked']
    E.ensure('every state has its own', [
        (i, g[0], g[1] is states[i].rng) for i, g in log] == [
            (i, i, True) for i in range(k)])
    E.ensure('the states are kept in order', e.states == states)


for _k in (1, 2, 3):
    @unit('C19', 'weighted/%d states' % _k,
          [E_ + '._likelihood_weighted_integrate'], trials=40)
    def _(E, k=_k):
        """The answers of the states are averaged by the likelihoods of the
        constraints, on the probability scale."""
        rowid = E.int('rowid', lo=0)
        c = E.choice('constraints', [None, {}, {3: 1., 5: 0.}])
        w = [E.real('w%d' % i) for i in range(k)]
        lp = [E.real('l%d' % i) for i in range(k)]

        class S(Stub):
            def __init__(self, i):
                self.i = i

            def logpdf(self, r, targets, constraints=None, inputs=None,
                       accuracy=None):
                E.ensure_eq('the row', r, rowid)
                E.ensure('the likelihood of the constraints', targets == c
                         and not constraints and not inputs)
                return w[self.i]
        E.patch(EN + ':parallel_map', lambda f, l: E.mapped(f, l))
        e = engine(E, [S(i) for i in range(k)])
        got = e._likelihood_weighted_integrate(
            list(lp), rowid, c, multiprocess=E.choice('mp', [0, 1]))
        ws = [E.exp(x) for x in w] if c else [1.] * k
        E.ensure_eq('the weighted mean', E.exp(got) * sum(ws), sum(
            a * E.exp(b) for a, b in zip(ws, lp)), 1e-6)


@unit('C19', 'drop one', [E_ + '.drop_state'], trials=20)
def _(E):
    n = E.choice('n', [1, 2, 3, 4])
    i = E.choice('i', list(range(n)))
    l = [Options() for _ in range(n)]
    e = engine(E, list(l))
    e.drop_state(i)
    E.ensure('exactly the state is dropped', e.states == l[:i] + l[i + 1:])
