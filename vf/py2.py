"""Run-time helpers that give translated cgpm code its Python 2 meaning.

The translation (vf/translate.py) replaces Python 2 operators whose meaning
changed by calls to these functions.  They are the whole list of semantic
shims: '/' on integers, ordering of unlike types, round(), sorted()/min()/max()
of unlike types, str.encode codecs.
"""
import builtins
import functools
import numbers
import operator

import numpy as np

_INT = (int, np.integer, np.bool_)


def div(a, b):
    """Classic division: floor for integers, true otherwise."""
    if isinstance(a, _INT) and isinstance(b, _INT):
        return a // b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        ka = np.asarray(a).dtype.kind
        kb = np.asarray(b).dtype.kind
        if ka in 'biu' and kb in 'biu':
            return np.floor_divide(a, b)
    return a / b


def _rank(x):
    # CPython 2 orders unlike types by type name; None first, numbers next.
    if x is None:
        return ''
    if isinstance(x, numbers.Number):
        return ' '
    if isinstance(x, builtins.list):
        return 'list'
    return type(x).__name__


_PY2CMP = {'lt': operator.lt, 'le': operator.le,
           'gt': operator.gt, 'ge': operator.ge}


def _cmp(name, a, b):
    op = _PY2CMP[name]
    try:
        return op(a, b)
    except TypeError:
        if isinstance(a, (builtins.list, builtins.tuple)) \
                and type(a) is type(b):
            for x, y in builtins.zip(a, b):
                if x != y:
                    return _cmp(name, x, y)
            return op(builtins.len(a), builtins.len(b))
        ra, rb = _rank(a), _rank(b)
        if ra == rb:
            raise
        return op(ra, rb)


def lt(a, b): return _cmp('lt', a, b)
def le(a, b): return _cmp('le', a, b)
def gt(a, b): return _cmp('gt', a, b)
def ge(a, b): return _cmp('ge', a, b)


def _keycmp(a, b):
    if lt(a, b):
        return -1
    if lt(b, a):
        return 1
    return 0


_KEY = functools.cmp_to_key(_keycmp)


def sorted(iterable, key=None, reverse=False):
    items = builtins.list(iterable)
    try:
        return builtins.sorted(items, key=key, reverse=reverse)
    except TypeError:
        k = _KEY if key is None else (lambda x: _KEY(key(x)))
        return builtins.sorted(items, key=k, reverse=reverse)


def max(*a, **k):
    try:
        return builtins.max(*a, **k)
    except TypeError:
        return builtins.max(*a, key=_KEY)


def min(*a, **k):
    try:
        return builtins.min(*a, **k)
    except TypeError:
        return builtins.min(*a, key=_KEY)


def round(x, n=0):
    import math
    if n:
        return builtins.round(x, n)
    return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)


def func(f):
    return getattr(f, '__func__', f)


def library_compat():
    """Names that moved between the pinned library versions."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import scipy.misc
        import scipy.special
        scipy.misc.logsumexp = scipy.special.logsumexp


def exec_(code, glob=None, loc=None):
    exec(code, glob, loc)


def open_(f, mode='r', *a, **k):
    # str is bytes in Python 2
    if mode in ('r', 'w', 'a'):
        mode += 'b'
    return builtins.open(f, mode, *a, **k)


def map_(f, *xs): return builtins.list(builtins.map(f, *xs))
def filter_(f, x): return builtins.list(builtins.filter(f, x))
def zip_(*xs): return builtins.list(builtins.zip(*xs))


def encode(s, encoding, errors):
    if isinstance(s, str):
        return s.encode(encoding, errors).decode('latin-1')
    return s.encode(encoding, errors)


def translate(s, table, drop):
    if isinstance(s, str):
        if table is not None:
            s = s.translate(dict(enumerate(table)))
        return ''.join(c for c in s if c not in drop)
    return s.translate(table, drop)


HELPERS = {
    '__py2_encode__': encode, '__py2_translate__': translate,
    'open': open_, 'map': map_, 'filter': filter_, 'zip': zip_,
    '__py2_func__': func,
    '__py2_div__': div,
    '__py2_lt__': lt,
    '__py2_le__': le,
    '__py2_gt__': gt,
    '__py2_ge__': ge,
    'sorted': sorted,
    'max': max,
    'min': min,
    'round': round,
}
