"""The facts of mathematics the contracts use, proved here.

A finite sum is built element by element, so a fact about sums is shown for
the empty sum and preserved by adding one element (induction on the number of
elements)."""
from vf.spec import unit

ALL = ['C01', 'C02', 'C03', 'C04']


def z(E, n):
    return E.real(n)


@unit(ALL, 'lemma/L0-base', trials=0)
def _(E):
    E.ensure('L0: the empty sum is nonnegative', 0. >= z(E, 'zero') * 0)


@unit(ALL, 'lemma/L0-step', trials=0)
def _(E):
    s, b, n = E.real('s', lo=0, lo_open=False), E.real('b', lo=0, hi=1, lo_open=False, hi_open=False), E.int('n', lo=0)
    E.assume(s <= n)
    t = E.real('t', lo=0, lo_open=False)
    E.assume(t <= s)
    E.ensure('L0: adding a nonnegative term keeps a sum nonnegative',
             s + b >= 0)
    E.ensure('L0: a positive term or a positive sum makes it positive',
             E.Or(E.Not(E.Or(s > 0, b > 0)), s + b > 0))
    E.ensure('L0: a sum is at least its new term', s + b >= b)
    E.ensure('L0: a sum is at least its old terms', s + b >= t)
    E.ensure('L0: a sum of n + 1 terms at most 1 is at most n + 1',
             s + b <= n + 1)


@unit(ALL, 'lemma/L1-base', trials=0)
def _(E):
    x = E.real('x')
    E.ensure('L1: the empty sums satisfy (sum x)^2 <= N sum x^2',
             (x * 0) * (x * 0) <= 0 * (x * x))
    E.ensure('L1: one element', x * x <= 1 * (x * x))


@unit(ALL, 'lemma/L1-step', trials=0)
def _(E):
    n = E.int('n', lo=1)
    x, s1, s2 = E.real('x'), E.real('s1'), E.real('s2')
    E.assume(s1 * s1 <= n * s2)
    d = s1 - n * x
    # n (s2 + n x^2 - 2 s1 x) >= (s1 - n x)^2 >= 0
    E.ensure('L1 step: a square is nonnegative', d * d >= 0)
    q = s2 + n * x * x - 2 * s1 * x
    E.ensure('L1 step: n q >= (s1 - n x)^2', n * q >= d * d)
    E.ensure('L1 step: q >= 0', q >= 0)
    E.ensure_eq('L1 step: the difference', (n + 1) * (s2 + x * x)
                - (s1 + x) * (s1 + x), (n * s2 - s1 * s1) + q)
    E.ensure('L1: (s1 + x)^2 <= (n + 1) (s2 + x^2)',
             (s1 + x) * (s1 + x) <= (n + 1) * (s2 + x * x))


@unit(ALL, 'lemma/L2', trials=0)
def _(E):
    n = E.int('n', lo=1)
    m, s1, s2 = E.real('m'), E.real('s1'), E.real('s2')
    r, s = E.real('r', lo=0), E.real('s', lo=0)
    E.assume(s1 * s1 <= n * s2)
    d = s1 - n * m
    q = s2 + n * m * m - 2 * s1 * m
    E.ensure('L2: a square is nonnegative', d * d >= 0)
    E.ensure('L2: n q >= (s1 - n m)^2', n * q >= d * d)
    E.ensure('L2: q >= 0', q >= 0)
    E.ensure('L2: r q >= 0', r * q >= 0)
    E.ensure('L2: s (r + n) > 0', s * (r + n) > 0)
    v = s + s2 + r * m * m - (r * m + s1) * (r * m + s1) / (r + n)
    w = s * (r + n) + (n * s2 - s1 * s1) + r * q
    E.ensure('L2: the numerator is positive', w > 0)
    E.ensure_eq('L2: value times (r + n)', v * (r + n), w)
    E.ensure('L2: the posterior scale is positive', v > 0)


@unit(ALL, 'lemma/L2-empty', trials=0)
def _(E):
    m = E.real('m')
    r, s = E.real('r', lo=0), E.real('s', lo=0)
    v = s + 0 + r * m * m - (r * m + 0) * (r * m + 0) / (r + 0)
    E.ensure_eq('L2: no data', v, s)


@unit(ALL, 'lemma/L3', trials=0)
def _(E):
    k = E.int('k', lo=1)
    x = E.int('x', lo=0, hi=k)
    E.ensure_eq('L3: one value of range(k) adds 1 to the sum of the counts',
                E.sum(E.indices(k), lambda j: E.If(j == x, 1, 0)), 1)
