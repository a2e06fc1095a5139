"""C25: kernel densities over the contract of the library that evaluates the
kernels: which rows, which bandwidths and which weights."""
import math

import numpy as np

from specs.contracts import draw_contracts
from vf.spec import unit, Stub

KD = 'cgpm.kde.mvkde:MultivariateKde'
KM = 'cgpm.kde.mvkde'
O = [5, 2, 9]
NAN = float('nan')
# which cells of the rows are observed
SHAPES = {
    'one row': [(1, 1, 1)],
    'missing cells': [(1, 0, 1), (1, 1, 1), (0, 1, 1), (1, 1, 1)],
}


class Table(Stub):
    """A component of three variables: two numerical ones and one of k
    categories (in the middle)."""

    def __init__(self, E, k=3):
        self.E, self.k = E, k
        self.m = m = E.bare(E.get(KD))
        self.rng = m.rng = E.rng()
        m.outputs, m.inputs = list(O), []
        m.stattypes = ['numerical', 'categorical', 'numerical']
        m.statargs = [None, {'k': k}, None]
        m.levels = {2: k}
        self.bw = dict((q, E.real('bw%d' % q, lo=0, hi=.5 if q == 2 else 9))
                       for q in O)
        m.bw = [self.bw[q] for q in O]
        m.data = {}
        self.rows = []
        for i, r in enumerate(SHAPES[E.choice('rows', sorted(SHAPES))]):
            x = dict((q, NAN if not here else E.int('code', lo=0, hi=k)
                      if q == 2 else E.real('cell'))
                     for q, here in zip(O, r))
            self.rows.append(x)
            m.data[i] = [x[q] for q in O]
        m.N = len(self.rows)

    def complete(self, qs):
        return [x for x in self.rows if not any(
            isinstance(x[q], float) and math.isnan(x[q]) for q in qs)]


def which(T, b):
    """The variable of a bandwidth."""
    for q in O:
        c = T.bw[q]
        if b is c or (b.t.eq(c.t) if hasattr(b, 't') and hasattr(c, 't')
                      else not hasattr(b, 't') and b == c):
            return q
    T.E.ensure('the bandwidth of a variable', False, b)


def columns(E, T, what, bw, data, kinds, values, wanted, base):
    """The columns, in the order of the bandwidths, are the cells of the
    wanted variables in the rows that have all of base."""
    qs = [which(T, b) for b in list(bw)]
    E.ensure(what + ': the bandwidths', sorted(qs) == sorted(wanted),
             (qs, wanted))
    E.ensure(what + ': the types', str(kinds) == ''.join(
        'u' if q == 2 else 'c' for q in qs), (kinds, qs))
    rows, got = T.complete(base), [list(r) for r in data]
    E.ensure(what + ': a row for each that has the variables',
             len(got) == len(rows), (len(got), len(rows)))
    for x, r in zip(rows, got):
        E.ensure(what + ': a cell for each variable', len(r) == len(qs))
        for q, c in zip(qs, r):
            E.ensure_eq(what + ': the cell', c, x[q])
    if values is not None:
        values = list(values)
        E.ensure(what + ': a value for each', len(values) == len(qs))
        for q, v in zip(qs, values):
            E.ensure_eq(what + ': the value', v, wanted[q])


class Library(Stub):
    """The kernels of the library: the weight of each row given the
    bandwidths, the rows, the point and the types of the variables; and
    densities."""

    def __init__(self, E, T, given, targets=()):
        self.E, self.T, self.given, self.targets = E, T, given, targets
        self.weight = E.func('weight', lo=0)
        self.density = E.real('density', lo=0)
        self.asked = 0
        self.base = sorted(set(given) | set(targets))
        L = self

        class Joint(Stub):
            def __init__(self, data, var_type, bw=None):
                L.data, L.types, L.bw = data, var_type, bw

            def pdf(self, data_predict=None):
                L.asked += 1
                columns(E, T, 'the density', L.bw, L.data, L.types,
                        data_predict, L.targets, L.base)
                E.ensure('nothing is conditioned on', not L.given)
                return L.density

        class Conditional(Stub):
            def __init__(self, endog, exog, dep_type, indep_type, bw):
                bw, n = list(bw), len(dep_type)
                L.e = bw[:n], endog, dep_type
                L.x = bw[n:], exog, indep_type

            def pdf(self, endog_predict=None, exog_predict=None):
                L.asked += 1
                columns(E, T, 'the targets', *(L.e + (
                    endog_predict, L.targets, L.base)))
                columns(E, T, 'the conditions', *(L.x + (
                    exog_predict, L.given, L.base)))
                return L.density
        self.KDEMultivariate = Joint
        self.KDEMultivariateConditional = Conditional
        E.patch(KM + ':_kernel_base', self)
        E.patch(KM + ':kernel_density', self)

    def gpke(self, bw, data, data_predict, var_type, tosum=True, **k):
        E = self.E
        self.asked += 1
        E.ensure('one weight for each row', not tosum and not k)
        columns(E, self.T, 'the weights', bw, data, var_type, data_predict,
                self.given, self.base)
        return np.array([self.weight(i) for i in range(len(data))],
                        dtype=object if E.symbolic else float)


def kernels(E, T, got, targets, draws, row):
    """Each target is drawn from the kernel around the cell of the row."""
    E.ensure('the targets', set(got) == set(targets))
    E.ensure('one draw for each target', len(draws) == len(targets))
    by = {}
    for q in targets:
        hit = [d for d in draws if d[2] is got[q] or (
            d[2].t.eq(got[q].t) if hasattr(d[2], 't') and hasattr(got[q], 't')
            else not hasattr(d[2], 't') and not hasattr(got[q], 't')
            and d[2] == got[q])]
        if hit:
            by[q] = hit[0]
    E.ensure('a draw for each target', set(by) == set(targets))
    for q in targets:
        d = by[q]
        E.ensure_eq('the value drawn', got[q], d[2])
        if q == 2:
            a = d[1]['a']
            E.ensure_eq('the categories', list(range(a) if isinstance(a, int)
                                               else a), list(range(T.k)))
            for c in range(T.k):
                want = 1 - T.bw[2] if E.truth(E.eq(row[2], c)) else \
                    T.bw[2] / (T.k - 1)
                E.ensure_eq('the kernel of a category', d[1]['p'][c], want)
        else:
            E.ensure('a normal kernel', d[0] == 'normal')
            E.ensure_eq('around the cell', d[1]['loc'], row[q])
            E.ensure_eq('of the bandwidth', d[1]['scale'], T.bw[q])


TARGETS = {'5': [5], '2': [2], '9 and 2': [9, 2], 'all': [2, 9, 5]}


@unit('C25', 'kernel/simulate', [
    KD + '.' + f for f in ('simulate', '_simulate_member', '_dataset',
                           '_stattypes', '_simulate_gaussian_kernel',
                           '_simulate_aitchison_aitken_kernel')], trials=60)
def _(E):
    """Without constraints every row that has the targets is equally likely,
    and each target comes from its kernel around the cell of the row."""
    draw_contracts(E)
    T = Table(E, E.choice('k', [2, 3]))
    targets = TARGETS[E.choice('targets', sorted(TARGETS))]
    rows = T.complete(targets)
    got = T.m.simulate(77, list(targets))
    draws = list(T.rng.draws)
    i = 0
    if len(draws) > len(targets):
        E.same_law('the row', draws[0], list(range(len(rows))), lambda i: 0.)
        i = int(draws[0][2])
        draws = draws[1:]
    else:
        E.ensure('a single row', len(rows) == 1)
    kernels(E, T, got, targets, draws, rows[i])


GIVEN = {'2': [2], '9': [9], '2 and 9': [9, 2]}


def given_rows(name):
    @unit('C25', 'kernel/simulate given ' + name, [
        KD + '.' + f for f in (
            'simulate', '_simulate_member', '_dataset', '_bw', '_stattypes',
            'populate_constraints')], trials=80)
    def _(E):
        """Given constraints a row is picked by the weight of the constrained
        variables; N samples are N picks."""
        draw_contracts(E)
        given = GIVEN[name]
        targets = [q for q in O if q not in given]
        T = Table(E)
        values = dict((q, E.int('v', lo=0, hi=T.k) if q == 2 else E.real('v'))
                      for q in given)
        L = Library(E, T, values, targets)
        N = E.choice('N', [None, 2])
        got = T.m.simulate(77, list(targets), dict(values), N=N)
        E.ensure('the library weighs the rows', L.asked >= 1)
        rows = T.complete(O)
        draws = list(T.rng.draws)
        if N is None:
            got = [got]
        E.ensure('as many samples', len(got) == len(
            [None] if N is None else range(N)))
        if len(rows) > 1:
            if np.ndim(draws[0][2]) == 1:
                d = draws[0]        # all rows in one call
                draws[:1] = [(d[0], d[1], v) for v in d[2]]
            picks, draws = draws[:len(got)], draws[len(got):]
        else:
            picks = [None] * len(got)
        k = len(targets)
        E.ensure('the draws of the samples', len(draws) == k * len(got))
        for i, (g, p) in enumerate(zip(got, picks)):
            at = 0
            if p is not None:
                E.same_law('the row', p, list(range(len(rows))),
                           lambda i: E.log(L.weight(i)))
                at = int(p[2])
            kernels(E, T, g, targets, draws[k * i:k * i + k], rows[at])


for _g in GIVEN:
    given_rows(_g)


@unit('C25', 'kernel/density', [
    KD + '.' + f for f in ('logpdf', '_dataset', '_bw', '_stattypes',
                           'populate_constraints')], trials=80)
def _(E):
    """The density is the one of the library for the rows that have the
    variables of the query, an observed row conditioning on its cells."""
    targets = TARGETS[E.choice('targets', sorted(TARGETS))]
    given = GIVEN[E.choice('given', sorted(GIVEN))] if E.flag('some') else []
    given = [q for q in given if q not in targets]
    T = Table(E, E.choice('k', [2, 3]))
    value = lambda q: E.int('v', lo=0, hi=T.k) if q == 2 else E.real('v')
    ts = dict((q, value(q)) for q in targets)
    cs = dict((q, value(q)) for q in given)
    rowid = 77
    full = dict(cs)
    if E.flag('an observed row'):
        rowid = 0
        full.update((q, v) for q, v in T.rows[0].items()
                    if q not in ts and q not in cs and any(
                        x is T.rows[0] for x in T.complete([q])))
    E.assume(len(T.complete(sorted(set(ts) | set(full)))) > 0)
    L = Library(E, T, full, ts)
    got = T.m.logpdf(rowid, dict(ts), dict(cs) if given else None)
    E.ensure('the library is asked', L.asked == 1)
    E.ensure_eq('the density', got, E.log(L.density))
