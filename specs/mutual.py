"""C31: mutual information and entropy of the columns of a CrossCat state.

The estimators are proved over the contracts of simulate and logpdf_bulk (any
number of samples); whole queries on small states are compared, in
expectation over every sequence of draws, with the exact information."""
import itertools
import math

from specs import exactlaw
from specs.mixlib import St
from specs.network import Cpt, binary_state, plan_of, hook
from vf.spec import unit, bounded

S = 'cgpm.crosscat.state:State'
VE = (ValueError,)


class Queries(object):
    """simulate and logpdf of a state, as far as they are asked: N samples,
    and a density for each set of columns."""

    def __init__(self, E, st, N, given):
        self.E, self.N, self.given = E, N, given
        self.vals, self.asked = {}, []
        self.f = E.func('logp')
        self.drawn = None
        E.replace(st, 'simulate', self.simulate)
        E.replace(st, 'logpdf_bulk', self.logpdf_bulk)
        E.replace(st, 'logpdf', self.logpdf)

    def hypothetical(self, r):
        return r is None or self.E.truth(r < 0)

    def value(self, c, i):
        if c not in self.vals:
            self.vals[c] = self.E.func('x%d' % c)
        return self.vals[c](i)

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None,
                 accuracy=None):
        E = self.E
        E.ensure('a new row is sampled', self.hypothetical(rowid))
        E.ensure('each column once', len(set(targets)) == len(targets))
        E.ensure('under the constraints', self.same(constraints))
        E.ensure('without inputs', not inputs)
        E.ensure('as many samples as asked for', N is not None
                 and E.truth(N == self.N))
        E.ensure('one batch of samples', self.drawn is None)
        self.drawn = tuple(sorted(targets))
        return E.mapped(lambda i: dict((c, self.value(c, i))
                                       for c in targets), E.indices(self.N))

    def same(self, constraints):
        return (constraints or {}) == self.given

    def p(self, cells):
        cs = sorted(cells)
        code = sum(2 ** c for c in cs)
        return self.f(code, *[cells[c] for c in cs] + [0.] * (4 - len(cs)))

    def logpdf(self, rowid, targets, constraints=None, inputs=None,
               accuracy=None):
        E = self.E
        E.ensure('of a new row', self.hypothetical(rowid))
        E.ensure('given the constraints', self.same(constraints))
        E.ensure('without inputs', not inputs)
        return self.p(targets)

    def logpdf_bulk(self, rowids, targets_list, constraints_list=None,
                    inputs_list=None):
        E = self.E
        n = E.length(targets_list)
        E.ensure('as many rows as targets', E.length(rowids) == n)
        E.ensure('as many constraints as targets', constraints_list is None
                 and not self.given or E.length(constraints_list) == n)
        E.forall('of new rows', rowids, self.hypothetical)
        if constraints_list is not None:
            E.forall('given the constraints', constraints_list, self.same)
        E.ensure('without inputs', inputs_list is None)
        return E.mapped(self.p, targets_list)


def columns(E, sizes):
    """Disjoint lists of columns, in any order."""
    cs = E.choice('columns', [[0, 1, 2, 3], [3, 1, 2, 0]])
    out, i = [], 0
    for n in sizes:
        out.append(cs[i:i + n])
        i += n
    return out


@unit('C31', 'information', [S + '._compute_mi'], trials=40)
def _(E):
    """The mean of log p(x, y) - log p(x) - log p(y) over N samples."""
    st = E.bare(E.get(S))
    N = E.size('N', lo=1)
    a, b = columns(E, E.choice('sizes', [(1, 1), (2, 1), (1, 2), (2, 2)]))
    given = E.choice('given', [{}, {7: 1.5}])
    Q = Queries(E, st, N, given)
    got = st._compute_mi(list(a), list(b), dict(given), N)
    cells = lambda i, cs: dict((c, Q.value(c, i)) for c in cs)
    E.ensure('both groups are sampled', Q.drawn == tuple(sorted(a + b)))
    E.ensure_eq('the mean log ratio', got * N, E.sum(
        E.indices(N), lambda i: Q.p(cells(i, a + b)) - Q.p(cells(i, a))
        - Q.p(cells(i, b))))


@unit('C31', 'entropy', [S + '._compute_entropy'], trials=40)
def _(E):
    """Minus the mean of log p(x) over N samples, in any order of columns."""
    st = E.bare(E.get(S))
    N = E.size('N', lo=1)
    a, = columns(E, [E.choice('size', [1, 2, 3])])
    given = E.choice('given', [{}, {7: 1.5}])
    Q = Queries(E, st, N, given)
    got = st._compute_entropy(list(a), list(reversed(a)), dict(given), N)
    E.ensure('the columns are sampled', Q.drawn == tuple(sorted(a)))
    E.ensure_eq('minus the mean log density', got * N, -E.sum(
        E.indices(N), lambda i: Q.p(dict((c, Q.value(c, i)) for c in a))))


@unit('C31', 'given', [S + '._compute_mutual_information'], trials=60)
def _(E):
    """Constraints without a value are averaged over T draws, given those
    with one; the others are fixed."""
    st = E.bare(E.get(S))
    N, T = E.size('N', lo=1), E.size('T', lo=1)
    default = E.flag('default')
    kind = E.choice('kind', ['mi', 'entropy'])
    a, b = ([0, 1], [2]) if kind == 'mi' else ([0, 1], [1, 0])
    fixed = E.choice('fixed', [{}, {5: 2.5}])
    free = E.choice('free', [[], [6], [6, 4]])
    f, vals = E.func(kind), dict((c, E.func('z%d' % c)) for c in free)
    n, t = (100, 100) if default else (N, T)
    draws = []

    def simulate(rowid, targets, constraints=None, inputs=None, N=None,
                 accuracy=None):
        E.ensure('a new row is sampled',
                 rowid is None or E.truth(rowid < 0))
        E.ensure('the constraints without a value',
                 sorted(targets) == sorted(free) != [])
        E.ensure('given the others', (constraints or {}) == fixed)
        E.ensure('without inputs', not inputs)
        E.ensure('T draws', N is not None and E.truth(N == t))
        draws.append(1)
        return E.mapped(lambda i: dict((c, vals[c](i)) for c in targets),
                        E.indices(t))

    def estimate(which):
        def g(col0, col1, constraints, N):
            E.ensure('the estimator of the query', which == kind)
            E.ensure('its columns', (sorted(col0), sorted(col1)) == (
                sorted(a), sorted(b)))
            E.ensure('N samples', E.truth(N == n))
            E.ensure('the constraints', set(constraints) == set(
                fixed) | set(free) and all(
                constraints[c] == fixed[c] for c in fixed))
            cs = sorted(free)
            return f(*[constraints[c] for c in cs]
                     + [0.] * (2 - len(cs)))
        return g
    E.replace(st, 'simulate', simulate)
    E.replace(st, '_compute_mi', estimate('mi'))
    E.replace(st, '_compute_entropy', estimate('entropy'))
    given = dict(fixed)
    given.update((c, None) for c in free)
    keep = dict(given)
    got = st._compute_mutual_information(
        list(a), list(b), given, *(() if default else (T, N)))
    E.ensure('one batch of draws', len(draws) == (1 if free else 0))
    E.ensure('the constraints are kept', given == keep)
    if not free:
        E.ensure_eq('one estimate', got, f(0., 0.))
        return
    cs = sorted(free)
    E.ensure_eq('the mean of the estimates', got * t, E.sum(
        E.indices(t), lambda i: f(*[vals[c](i) for c in cs]
                                  + [0.] * (2 - len(cs)))))


@unit('C31', 'query', [S + '.mutual_information'], trials=60)
def _(E):
    """Independent blocks add up; those without both groups do not count."""
    st = E.bare(E.get(S))
    k = E.choice('blocks', [0, 1, 2, 3])
    f = E.func('estimate')
    blocks = []
    for i in range(k):
        x, y = E.choice('block', [(1, 1), (1, 0), (0, 1)] if i else [
            (1, 1), (0, 0)])
        blocks.append(([2 * i] * x, [2 * i + 1] * y, {9: 1.}))
    a = [c for b in blocks for c in b[0]]
    b_ = [c for b in blocks for c in b[1]]
    given = E.choice('given', [None, {9: 1.}])
    T, N = E.choice('sizes', [(None, None), (7, 9)])

    def part(col0, col1, constraints):
        E.ensure('the query is split', (list(col0), list(col1),
                                        constraints) == (a, b_, given or {}))
        return list(blocks)

    def compute(col0, col1, constraints, T_=None, N_=None, progress=None):
        E.ensure('the sizes asked for', (T_, N_) == (T, N))
        i = [(x, y) for x, y, _ in blocks].index((col0, col1))
        E.ensure('the constraints of the block', constraints == {9: 1.})
        return f(i)
    E.replace(st, '_partition_mutual_information_query', part)
    E.replace(st, '_compute_mutual_information', compute)
    got = st.mutual_information(a, b_, given, T=T, N=N)
    E.ensure_eq('the sum over the blocks', got, sum(
        [f(i) for i, (x, y, _) in enumerate(blocks) if x and y], 0.))


@unit('C31', 'reject', [S + '.mutual_information'], trials=60)
def _(E):
    """Overlapping groups are rejected before anything is drawn."""
    st = E.bare(E.get(S))

    def no(*a, **k):
        E.fail('nothing is asked of a rejected query')
    for n in ('_partition_mutual_information_query', 'simulate',
              'logpdf_bulk', 'build_cgpms'):
        E.setattr(st, n, no)
    a, b, c = E.choice('columns', [[0, 1, 2], [5, 3, 9], [2, 1, 0]])
    x = E.real('x')
    for name, args in [
            ('a target is a constraint', ([a], [b], {b: x})),
            ('a target of the first group is', ([a, c], [b], {c: None})),
            ('groups overlap', ([a, b], [b])),
            ('the second is part of the first', ([a, b, c], [c, a])),
            ('the first is part of the second', ([a], [b, a], {c: x}))]:
        E.raises(VE, lambda: st.mutual_information(*args), name)
    E.ensure('done', True)


# --------------------------------------------------------------------------
# Bounded: whole queries.

def entropy_of(st, cols, given):
    """Exact H(cols | given): over all values of binary columns."""
    h = 0.
    for xs in itertools.product([0, 1], repeat=len(cols)):
        lp = st.conditional(dict(zip(cols, xs)), given)
        h -= math.exp(lp) * lp
    return h


def exact(st, a, b, fixed, free):
    """I(a; b | free, fixed), or H(a | free, fixed) when b is a."""
    h = lambda cs: entropy_of(st, sorted(set(cs)), fixed) if cs else 0.
    if set(a) == set(b):
        return h(a + free) - h(free)
    return h(a + free) + h(b + free) - h(a + b + free) - h(free)


def query(E, st):
    """Two groups, fixed and free constraints."""
    cs = [int(c) for c in E.r.permutation(st.cols)]
    a, b, fixed, free = [], [], {}, []
    roles = E.choice('one of each', [True, False])
    for i, c in enumerate(cs):
        w = i if roles else 0 if i == 0 else 1 if i == 1 else int(
            E.r.randint(5))
        if w == 0:
            a.append(c)
        elif w == 1:
            b.append(c)
        elif w == 2:
            fixed[c] = int(E.r.randint(2))
        elif w == 3:
            free.append(c)
    if E.choice('entropy', [False, False, False, True]):
        a = a + b
        b = [int(c) for c in E.r.permutation(a)]
    E.note('query', (a, b, fixed, free))
    return a, b, fixed, free


@bounded('C31', 'expectation', [
    S + '.mutual_information', S + '._compute_mutual_information',
    S + '._compute_mi', S + '._compute_entropy',
    S + '._partition_mutual_information_query'], trials=120,
         bound='up to 4 binary columns and 3 rows; one sample, all draws '
               'enumerated')
def _(E):
    """The estimate is right on average."""
    st = St(E, types=('bernoulli',), cols=E.choice('columns', [2, 3, 4, 4, 4]),
            n=int(E.r.randint(1, 4)))
    a, b, fixed, free = query(E, st)
    given = dict(fixed)
    given.update((c, None) for c in free)

    def run(rng):
        return round(float(st.build(rng=rng).mutual_information(
            list(a), list(b), dict(given) or None, T=1, N=1)), 11)
    try:
        law = exactlaw.law(run, 600)
    except exactlaw.TooMany:
        return
    E.ensure_eq('the mean of the estimate', sum(
        p * v for v, p in law.items()), exact(st, a, b, fixed, free),
        tol=1e-7)
    st.state.rng = E.rng()
    got = st.state.mutual_information(a, b, dict(given), T=2, N=3)
    E.ensure('a number', isinstance(float(got), float)
             and not math.isnan(got))
    if set(a) != set(b) and not set(st.vof(c) for c in a) & set(
            st.vof(c) for c in b):
        E.ensure('independent columns share no information', got == 0)


@bounded('C31', 'blocks', [S + '._partition_mutual_information_query'],
         trials=150, bound='up to 5 binary columns and 2 hooked tables')
def _(E):
    """Every variable of the query goes to the block of its component, and
    connected variables to the same block."""
    st = binary_state(E)
    plan = plan_of(E, st) if E.flag('hooked') else []
    s = st.state
    hook(E, st, s, E.rng(), plan)
    vs = list(st.cols) + [v for o, _, _ in plan for v in o]
    # components: views, joined by the hooked tables
    comp = dict((v, ('h', v)) for v in vs)
    comp.update((c, ('v', st.vof(c))) for c in st.cols)
    for o, ins, _ in plan:
        for i in ins:
            old, new = comp[i], comp[o[0]]
            for v in vs:
                if comp[v] == old:
                    comp[v] = new
    a, b, given = [], [], {}
    for v in E.r.permutation(vs):
        w = int(E.r.randint(4))
        v = int(v)
        if w == 0:
            a.append(v)
        elif w == 1:
            b.append(v)
        elif w == 2:
            given[v] = E.choice('x', [None, 0, 1])
    E.note('query', (a, b, given))
    got = list(s._partition_mutual_information_query(
        list(a), list(b), dict(given)))
    want = []
    for k in sorted(set(comp.values())):
        in_ = lambda v: comp[v] == k
        t = ([v for v in a if in_(v)], [v for v in b if in_(v)],
             dict((v, x) for v, x in given.items() if in_(v)))
        if t[0] or t[1] or t[2]:
            want.append(t)
    key = lambda t: (t[0], t[1], sorted(t[2]))
    E.ensure('the blocks', sorted([(list(x), list(y), dict(z)) for x, y, z
                                   in got if x or y or z], key=key)
             == sorted(want, key=key))


@bounded('C31', 'composite', [S + '.mutual_information'], trials=40,
         bound='up to 3 binary columns and 2 hooked tables')
def _(E):
    """With hooked tables, independent variables share no information and
    queries are answered."""
    st = binary_state(E)
    plan = plan_of(E, st)
    s = st.state
    hook(E, st, s, E.rng(), plan)
    h = plan[0][0][0]
    near, far = [], []
    joined = set(st.vof(i) for o, ins, _ in plan for i in ins
                 if i in st.cols)
    for c in st.cols:
        (near if st.vof(c) in joined else far).append(c)
    got = s.mutual_information([h], [h], N=2)
    E.ensure('the entropy of a hooked variable', got >= 0)
    if far:
        E.ensure('no information about other views',
                 s.mutual_information([h], far[:1], N=2) == 0)
    if near:
        E.ensure('a number', not math.isnan(s.mutual_information(
            [h], near[:1], {c: None for c in near[1:2]}, T=2, N=2)))


@unit('C31', 'normal pair', ['cgpm.uncorrelated.linear:Linear'
                             '.mutual_information'], trials=60)
def _(E):
    """Two standard normals of covariance c: minus half log(1 - c c)."""
    m = E.bare(E.get('cgpm.uncorrelated.linear:Linear'))
    n = E.real('noise', lo=.01, hi=.99)
    m.noise = n
    E.ensure_eq('the closed form', m.mutual_information(),
                -E.log(1 - (1 - n) * (1 - n)) / 2)
