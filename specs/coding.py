"""C28: types and data are coded without changing what they say
(utils/config.py, utils/data.py)."""
import math

import numpy as np

from vf.spec import unit, bounded

C = 'cgpm.utils.config'
D = 'cgpm.utils.data'
NAN = float('nan')
BAD = (TypeError, ValueError)

NAMES = ['bernoulli', 'beta', 'categorical', 'crp', 'exponential',
         'geometric', 'lognormal', 'normal', 'normal_trunc', 'poisson',
         'vonmises', 'linear_regression', 'random_forest']


# --------------------------------------------------------------------------
# Dummy coding of the inputs of a regression.

@unit('C28', 'dummy/category', [D + ':dummy_code'], trials=60)
def _(E):
    """A category of k has k - 1 codes; the last category is all zeros."""
    k = E.int('k', lo=1, hi=None if E.symbolic else 7)
    v = E.int('v', lo=0, hi=k)
    code = E.mod(D).dummy_code([v], {0: k})
    E.ensure_eq('one code less than there are categories', E.length(code),
                k - 1)
    i = E.int('i', lo=0, hi=None if E.symbolic else 7)
    if i < k - 1:
        E.ensure_eq('the code of its own category alone is set', code[i],
                    E.If(E.eq(i, v), 1, 0))


@unit('C28', 'dummy/mixed', [D + ':dummy_code'], trials=60)
def _(E):
    """Numbers pass as they are, in place."""
    k = E.int('k', lo=1, hi=None if E.symbolic else 7)
    v = E.int('v', lo=0, hi=k)
    x, y = E.real('x'), E.real('y')
    where = E.choice('where', [0, 1, 2])
    row = [x, y]
    row.insert(where, v)
    code = E.mod(D).dummy_code(row, {where: k})
    E.ensure_eq('the length', E.length(code), k + 1)
    before, after = [x, y][:where], [x, y][where:]
    for j, z in enumerate(before):
        E.ensure_eq('the numbers before', code[j], z)
    for j, z in enumerate(after):
        E.ensure_eq('the numbers after', code[where + k - 1 + j], z)
    i = E.int('i', lo=0, hi=None if E.symbolic else 7)
    if i < k - 1:
        E.ensure_eq('the code of the category', code[where + i],
                    E.If(E.eq(i, v), 1, 0))


@unit('C28', 'dummy/numbers', [D + ':dummy_code'], trials=30)
def _(E):
    n = E.size('n', lo=0)
    x = E.table('x', n, E.func('x'))
    code = E.mod(D).dummy_code(x, {})
    E.ensure_eq('the length', E.length(code), n)
    if n > 0:
        i = E.int('i', lo=0, hi=n)
        E.ensure_eq('no number is changed', code[i], x[i])


@unit('C28', 'dummy/reject', [D + ':dummy_code'], trials=60)
def _(E):
    """A value which is no category is not coded."""
    k = E.int('k', lo=1, hi=None if E.symbolic else 7)
    x = E.real('x')
    kind = E.choice('kind', ['below', 'above', 'between'])
    if kind == 'below':
        v = E.int('v', hi=0, lo=None if E.symbolic else -9)
    elif kind == 'above':
        v = k + E.int('v', lo=0, hi=None if E.symbolic else 9)
    else:
        v = E.int('v', lo=0, hi=k) + E.choice('part', [.5, .25])
    def call():
        return E.mod(D).dummy_code([x, v], {1: k})
    E.raises(BAD, call, 'a value which is not one of the categories')
    E.ensure_eq('while the first of them is', E.length(
        E.mod(D).dummy_code([x, 0], {1: k})), k)


@bounded('C28', 'dummy/rows', [D + ':dummy_code'], trials=150,
         bound='rows of up to 7 values, up to 6 categories each')
def _(E):
    n = E.int('n', lo=0, hi=8)
    levels, row = {}, []
    for i in range(n):
        if E.flag('categorical'):
            levels[i] = E.int('k', lo=1, hi=7)
            v = E.int('v', lo=0, hi=levels[i])
            row.append(E.choice('type', [v, float(v), np.float64(v)]))
        else:
            row.append(E.real('x'))
    keep = list(row)
    code = E.mod(D).dummy_code(E.choice('seq', [row, tuple(row),
                                                np.array(row, float)]),
                               dict(levels))
    want = []
    for i, v in enumerate(keep):
        if i in levels:
            want += [1 if j == v else 0 for j in range(levels[i] - 1)]
        else:
            want.append(v)
    E.ensure_eq('the coded row', list(code), want)


# --------------------------------------------------------------------------
# Names of types.

@bounded('C28', 'types/parse', [C + ':parse_distargs'], trials=150,
         bound='lists of up to 6 types with up to 3 arguments')
def _(E):
    """Each type is given with its arguments, in order."""
    n = E.int('n', lo=0, hi=7)
    text, names, args = [], [], []
    for i in range(n):
        name = E.choice('name', NAMES)
        m = E.int('arguments', lo=0, hi=4)
        d = dict((a, E.choice('value', [2, 8, 13, .5, -1, 256, 1e3]))
                 for a in ['k', 'alpha', 'l_2'][:m])
        order = list(d)
        E.r.shuffle(order)
        names.append(name)
        args.append(d if m else None)
        text.append(name if not m else '%s(%s)' % (name, ','.join(
            '%s=%s' % (a, d[a]) for a in order)))
    keep = list(text)
    got = E.mod(C).parse_distargs(text)
    E.ensure('the names of the types', list(got[0]) == names)
    E.ensure('the arguments', list(got[1]) == args)
    E.ensure('the list is not changed', text == keep)


@bounded('C28', 'types/class', [
    C + ':cctype_class', C + ':valid_cctype', C + ':all_cctypes'], trials=4,
    bound='every type of the library')
def _(E):
    cu = E.mod(C)
    every = sorted(cu.all_cctypes())
    E.ensure('the types', every == sorted(NAMES))
    for n in NAMES:
        E.ensure('a type of the library is valid', cu.valid_cctype(n))
        E.ensure('the class of the type', cu.cctype_class(n).name() == n)
    for n in ['', 'Normal', 'normal ', 'gaussian', None]:
        E.ensure('any other is not', not cu.valid_cctype(n))
        E.raises((ValueError, KeyError), lambda: cu.cctype_class(n),
                 'there is no class of another type')


@unit('C28', 'types/loom', [C + ':loom_stattype'], trials=60)
def _(E):
    """The statistical type of Loom that has the support of the column."""
    cu = E.mod(C)
    k = E.int('k', lo=2, hi=None if E.symbolic else 600)
    E.ensure('a large category is unbounded', cu.loom_stattype(
        'categorical', {'k': k}) == (
            'unbounded_categorical' if k > 256 else 'categorical'))
    want = {'bernoulli': 'boolean', 'crp': 'unbounded_categorical',
            'poisson': 'count'}
    da = E.choice('da', [None, {}])
    for n in NAMES:
        if n in ('linear_regression', 'random_forest'):
            E.raises((ValueError,), lambda: cu.loom_stattype(n, da),
                     'a conditional column has no such type')
        elif n not in ('categorical', 'geometric'):
            E.ensure('the type', cu.loom_stattype(n, da) == want.get(
                n, 'real'))


@bounded('C28', 'debug', [C + ':check_env_debug'], trials=4,
         bound='unset, 0, 1 and 2')
def _(E):
    import os
    cu = E.mod(C)
    old = os.environ.pop('GPMCCDEBUG', None)
    try:
        E.ensure('off by default', not cu.check_env_debug())
        for v in ('0', '1', '2'):
            os.environ['GPMCCDEBUG'] = v
            E.ensure('on when it is not zero', bool(cu.check_env_debug())
                     == (v != '0'))
    finally:
        os.environ.pop('GPMCCDEBUG', None)
        if old is not None:
            os.environ['GPMCCDEBUG'] = old


# --------------------------------------------------------------------------
# A table of raw data and its schema.

def frame(E):
    """A table of columns of any kinds, and what the coded table must be."""
    import pandas as pd
    r = E.r
    n = E.int('rows', lo=2, hi=9)
    m = E.int('columns', lo=1, hi=6)
    ids = [int(i) for i in r.choice(30, size=m + 3, replace=False)]
    data, schema, want = {}, [], []

    def hole(x):
        u = r.uniform()
        return 'NA' if u < .12 else NAN if u < .24 else x
    names = ['c%d' % (i,) for i in ids]
    for j in range(m):
        kind = E.choice('kind', ['normal', 'beta', 'bernoulli',
                                 'categorical', 'categorical(k', 'ignore'])
        if kind in ('normal', 'beta', 'ignore'):
            cells = [hole(float(r.normal())) for _ in range(n)]
            if kind == 'ignore':
                cells = [E.choice('t', ['a', 'NA', NAN, 1.]) for _ in cells]
            args = None
            mapping = None
        else:
            k = 2 if kind == 'bernoulli' else E.int('k', lo=1, hi=min(n, 4)
                                                    + 1)
            vals = [['zo', 'a', 'b', 'Q', 'm'], [3., -1., 7., .5, 40.],
                    [5, 9, 2, 11, 4]][r.randint(3)][:k]
            cells = [hole(vals[r.randint(k)]) for _ in range(n)]
            for i, v in zip(r.permutation(n), vals):
                cells[i] = v
            mapping = dict((v, i) for i, v in enumerate(sorted(vals)))
            args = None if kind == 'bernoulli' else {'k': k}
            if kind == 'categorical(k':
                args = {'k': k + E.int('extra', lo=0, hi=3)}
                kind = 'categorical(k=%d)' % (args['k'],)
        data[names[j]] = cells
        schema.append((names[j], kind, ids[j]))
        if kind != 'ignore':
            want.append((names[j], kind.split('(')[0], args, mapping,
                         ids[j]))
    r.shuffle(schema)
    order = [s[0] for s in schema]
    want.sort(key=lambda w: order.index(w[0]))
    # a column of the table that the schema does not name
    data['other'] = [E.choice('o', ['x', 'NA', 2.]) for _ in range(n)]
    df = pd.DataFrame(data, columns=sorted(data, key=lambda s: s[::-1]))
    E.note('schema', schema)
    E.note('data', data)
    return df, schema, want, data, n


def gone(x):
    return (isinstance(x, str) and x == 'NA') or (
        isinstance(x, float) and math.isnan(x))


@bounded('C28', 'schema', [D + ':parse_schema', D + ':build_valmap'],
         trials=250, bound='up to 8 rows and 5 columns of any type')
def _(E):
    """The coded table says what the raw one says."""
    df, schema, want, data, n = frame(E)
    if not want:
        return
    before = df.copy(deep=True)
    T, outputs, cctypes, distargs, valmap, columns = \
        E.mod(D).parse_schema(list(schema), df)
    E.ensure('the columns that are not ignored, in order',
             list(columns) == [w[0] for w in want])
    E.ensure('the names of the columns in the model',
             list(outputs) == [w[4] for w in want])
    E.ensure('their types', list(cctypes) == [w[1] for w in want])
    E.ensure('their arguments', list(distargs) == [w[2] for w in want])
    E.note('valmap', valmap)
    E.ensure('the codes of the categories', valmap == dict(
        (w[0], w[3]) for w in want if w[3] is not None))
    E.ensure('one row of the table for each row', np.shape(T) == (
        n, len(want)))
    for j, w in enumerate(want):
        for i in range(n):
            raw, got = data[w[0]][i], float(T[i, j])
            if gone(raw):
                E.ensure('a missing cell stays missing', math.isnan(got))
            elif w[3] is None:
                E.ensure_eq('a number stays itself', got, raw)
            else:
                E.ensure_eq('a category has its code', got, w[3][raw])
    E.ensure('the raw table is not changed', before.equals(df))


@bounded('C28', 'schema/state', [D + ':parse_schema', C + ':cctype_class'],
         trials=25, bound='up to 8 rows and 5 columns of any type')
def _(E):
    """A state is built from the coded table (the documented use)."""
    df, schema, want, data, n = frame(E)
    want = [w for w in want if w[1] != 'beta']
    schema = [s for s in schema if s[1] != 'beta']
    # A numerical column needs a value.
    if any(w[3] is None and all(gone(x) for x in data[w[0]]) for w in want):
        return
    if not want or any(w[2] is not None and w[2]['k'] < 2 for w in want):
        return
    T, outputs, cctypes, distargs, valmap, columns = \
        E.mod(D).parse_schema(list(schema), df)
    st = E.get('cgpm.crosscat.state:State')(
        np.asarray(T, float), outputs=outputs, cctypes=cctypes,
        distargs=distargs, rng=E.rng())
    E.ensure('the columns', list(st.outputs) == [w[4] for w in want])
    E.ensure('their types', list(st.cctypes()) == [w[1] for w in want])
    for w in want:
        for i in range(n):
            raw, got = data[w[0]][i], st.X[w[4]][i]
            E.ensure('the cell of the model', math.isnan(got) if gone(raw)
                     else got == (raw if w[3] is None else w[3][raw]))


@bounded('C28', 'schema/reject', [D + ':parse_schema'], trials=40,
         bound='three malformed schemas')
def _(E):
    import pandas as pd
    f = E.mod(D).parse_schema
    k = E.int('k', lo=3, hi=6)
    vals = [chr(97 + i) for i in range(k)] + ['NA']
    E.r.shuffle(vals)
    df = pd.DataFrame({'x': vals})
    E.raises((Exception,), lambda: f([('x', 'bernoulli', 0)], df.copy()),
             'a binary column of more than two values')
    E.raises((Exception,), lambda: f([(
        'x', 'categorical(k=%d)' % (k - 1,), 0)], df.copy()),
        'more categories than were declared')
    E.raises((Exception,), lambda: f([('y', 'normal', 0)], df.copy()),
             'a column that is not there')
