"""Dispatch of builtins and of math/numpy/scipy functions to their contracts
when an argument is symbolic, and to the real function otherwise."""
import builtins
import math
import itertools
import types

import numpy as np

from . import deps  # noqa: F401
import z3

from . import coll, py2, sym
from .coll import Dom, Family, NpFamily, One, SymMap
from .mix import MixDict, MixSet, dict_of, set_
from .sym import (Sym, SymBool, SymExt, SymInt, SymReal, Unsupported, cur)


def norm(x):
    """Iterables of unknown length as families."""
    if isinstance(x, MixDict):
        return x.keys() if x._log is not None else x
    if isinstance(x, MixSet):
        return x._distinct()
    return x


def has_sym(x, depth=0):
    if isinstance(x, (Sym, Family, SymMap)):
        return True
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(has_sym(v, depth + 1) for v in x)
    if depth < 4 and isinstance(x, MixDict) and x._log is not None:
        return True
    if depth < 4 and isinstance(x, builtins.dict):
        return any(has_sym(v, depth + 1) for v in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(has_sym(v) for v in x.flat)
    if isinstance(x, types.GeneratorType):
        return True
    return False


# --- builtins -------------------------------------------------------------

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


class float_(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.):
        if isinstance(x, (SymExt,)):
            return x
        if isinstance(x, Sym):
            return sym.to_real(x)
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class int_(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return sym.to_int(x)
        return builtins.int(x, *a)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.list, Family))


class list_(builtins.list, metaclass=_ListMeta):
    def __new__(cls, x=()):
        x = norm(x)
        if isinstance(x, Family):
            return x if not x.explicit() else builtins.list(x)
        if isinstance(x, SymMap):
            return x.keys()
        return builtins.list(x)


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.dict, SymMap))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.dict)


class dict_(builtins.dict, metaclass=_DictMeta):
    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SymMap) and not k:
            return a[0].clone()
        return dict_of(*a, **k)

    fromkeys = builtins.dict.fromkeys


def len_(x):
    if isinstance(x, (SymMap,)):
        n = x.length()
    elif isinstance(x, (Family, MixDict, MixSet)):
        n = x.length()
    elif hasattr(type(x), '_vf_len'):
        n = x._vf_len()
    else:
        return builtins.len(x)
    if isinstance(n, Sym):
        t = z3.simplify(n.t)
        if z3.is_int_value(t):
            return t.as_long()
    return n


def range_(*a):
    if not any(isinstance(x, Sym) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return coll.rng_family(a[0])
    if len(a) == 2:
        k = z3.Int(cur().fresh('k'))
        lo, hi = sym.int_term(a[0]), sym.int_term(a[1])
        n = z3.simplify(hi - lo)
        if z3.is_int_value(n) and n.as_long() <= 8:
            return Family([coll.One(SymInt(z3.simplify(lo + j)))
                           for j in builtins.range(n.as_long())])
        d = coll.Domain('range', (), lo, hi)
        return Family([Dom(d, k, coll.TRUE, SymInt(k))], 'range')
    raise Unsupported('range with a symbolic step')


def sum_(x, start=0):
    x = norm(x)
    if isinstance(x, (Family, SymMap)):
        x = coll.as_family(x)
        return coll.fold_sum(x.parts, start)
    return builtins.sum(x, start)


def _minmax(which):
    def f(*a, **k):
        a = [norm(a[0])] if len(a) == 1 else a
        if len(a) == 1 and isinstance(a[0], (Family, SymMap)):
            if k:
                raise Unsupported('max with key')
            fam = coll.as_family(a[0])
            if which == 'max':
                return coll.fold_max(fam)
            return -coll.fold_max(coll.fam_map(fam, lambda v: -v))
        return getattr(py2, which)(*a, **k)
    return f


max_, min_ = _minmax('max'), _minmax('min')


def sorted_(x, key=None, reverse=False):
    x = norm(x)
    if isinstance(x, (Family, SymMap)):
        f = coll.as_family(x)
        if f.explicit():
            return py2.sorted(f.values(), key=key, reverse=reverse)
        if key is None and not reverse:
            return Family(f.parts, ('sorted', f.token))
        raise Unsupported('sorted with key')
    return py2.sorted(x, key=key, reverse=reverse)


def all_(x):
    x = norm(x)
    if isinstance(x, Family):
        for p in x.parts:
            if isinstance(p, One):
                if not p.value:
                    return False
            elif not cur().decide(coll.forall_term(
                    p.dom, p.kvar, p.guard, sym.bool_term(p.value))):
                return False
        return True
    return builtins.all(x)


def any_(x):
    x = norm(x)
    if isinstance(x, Family):
        for p in x.parts:
            if isinstance(p, One):
                if p.value:
                    return True
            elif cur().decide(coll.exists_term(
                    p.dom, p.kvar, p.guard, sym.bool_term(p.value))):
                return True
        return False
    return builtins.any(x)


def zip_(*xs):
    xs = [norm(x) for x in xs]
    if not any(isinstance(x, (Family, SymMap)) for x in xs):
        return builtins.list(builtins.zip(*xs))
    fams = [coll.as_family(x) for x in xs]
    if all(f.explicit() for f in fams):
        return builtins.list(builtins.zip(*[f.values() for f in fams]))
    n = builtins.len(fams[0].parts)
    if any(builtins.len(f.parts) != n for f in fams):
        raise Unsupported('zip of differently shaped sequences')
    parts = []
    for ps in builtins.zip(*[f.parts for f in fams]):
        if all(isinstance(p, One) for p in ps):
            parts.append(One(tuple(p.value for p in ps)))
        elif all(isinstance(p, Dom) for p in ps) and all(
                p.dom.key() == ps[0].dom.key() for p in ps):
            k = ps[0].kvar
            vals, guards = [], []
            for p in ps:
                g, v = p.at(k)
                vals.append(v)
                guards.append(z3.simplify(g))
            if any(not g.eq(guards[0]) for g in guards):
                raise Unsupported('zip of differently filtered sequences')
            parts.append(Dom(ps[0].dom, k, guards[0], tuple(vals)))
        else:
            raise Unsupported('zip of differently shaped sequences')
    toks = set(str(f.token) for f in fams)
    if builtins.len(toks) > 1:
        raise Unsupported('zip of sequences in unrelated orders: %s' % toks)
    return Family(parts, fams[0].token)


def map_(f, *xs):
    xs = [norm(x) for x in xs]
    if len(xs) == 1 and isinstance(xs[0], (Family, SymMap)):
        return coll.fam_map(coll.as_family(xs[0]), f)
    if any(isinstance(x, (Family, SymMap)) for x in xs):
        return coll.fam_map(zip_(*xs), lambda t: f(*t))
    return builtins.list(builtins.map(f, *xs))


def filter_(f, x):
    x = norm(x)
    if isinstance(x, (Family, SymMap)):
        return coll.fam_flatmap(
            coll.as_family(x),
            lambda v: [v] if (f(v) if f else v) else [])
    return builtins.list(builtins.filter(f, x))


def enumerate_(x, start=0):
    x = norm(x)
    if isinstance(x, Family) and not x.explicit():
        p = x.parts[0]
        if builtins.len(x.parts) == 1 and p.dom.hi is not None and \
                z3.is_true(z3.simplify(p.guard)):
            return Family([Dom(p.dom, p.kvar, p.guard, (
                SymInt(z3.simplify(p.kvar - p.dom.lo)) + start, p.value))],
                x.token)
        raise Unsupported('enumerate of an unbounded sequence')
    if isinstance(x, Family):
        x = x.values()
    return builtins.enumerate(x, start)


def reversed_(x):
    x = norm(x)
    if not isinstance(x, Family) or x.explicit():
        return builtins.reversed(x.values() if isinstance(x, Family) else x)
    parts = []
    for p in builtins.reversed(x.parts):
        if isinstance(p, Dom):
            if p.dom.hi is None:
                raise Unsupported('reversed of an unordered sequence')
            p = Dom(p.dom, p.kvar, *p.at(
                z3.simplify(p.dom.lo + p.dom.hi - 1 - p.kvar)))
        parts.append(p)
    return Family(parts)


def iter_(x, *a):
    x = norm(x)
    if isinstance(x, (Family, SymMap)):
        return coll.as_family(x)
    return builtins.iter(x, *a)


def next_(it, *d):
    if isinstance(it, Family):
        if not it.parts:
            if d:
                return d[0]
            raise StopIteration()
        p = it.parts[0]
        if isinstance(p, One):
            return p.value
        raise Unsupported('next() of an unbounded sequence')
    return builtins.next(it, *d)


def abs_(x):
    return builtins.abs(x)


def isinstance_(x, t):
    if isinstance(t, tuple):
        return builtins.any(isinstance_(x, u) for u in t)
    if t is builtins.float or t is float_:
        return builtins.isinstance(x, (builtins.float, SymReal))
    if t is builtins.int or t is int_:
        return builtins.isinstance(x, (builtins.int, SymInt))
    if t is builtins.list or t is list_:
        return builtins.isinstance(x, (builtins.list, Family))
    if t is builtins.set or t is set_:
        return builtins.isinstance(x, (builtins.set, MixSet))
    if t is builtins.dict or t is dict_:
        return builtins.isinstance(x, (builtins.dict, SymMap))
    return builtins.isinstance(x, builtins.str if t is str_ else t)


def round_(x, n=0):
    if isinstance(x, Sym):
        raise Unsupported('round')
    return py2.round(x, n)


def div_(a, b):
    if isinstance(a, (Sym, Family)) or isinstance(b, (Sym, Family)):
        if isinstance(a, Sym) and isinstance(b, Sym) or not isinstance(
                a, Family) and not isinstance(b, Family):
            return sym.py2_div(a, b)
        return a / b
    return py2.div(a, b)


def fmt_(s, a):
    if has_sym(a):
        return '<formatted: %s>' % s
    return s % a


def str_(x=''):
    if isinstance(x, Sym):
        return repr(x)
    return builtins.str(x)


for _n in builtins.dir(builtins.str):        # str.join(...)
    if not _n.startswith('_'):
        setattr(str_, _n, getattr(builtins.str, _n))


BUILTINS = {
    'float': float_, 'int': int_, 'long': int_, 'list': list_, 'dict': dict_,
    'len': len_, 'range': range_, 'sum': sum_, 'max': max_, 'min': min_,
    'sorted': sorted_, 'all': all_, 'any': any_, 'zip': zip_, 'map': map_,
    'filter': filter_, 'enumerate': enumerate_,
    'reversed': reversed_, 'iter': iter_, 'next': next_,
    'isinstance': isinstance_, 'round': round_, '__py2_div__': div_,
    '__vf_fmt__': fmt_, 'set': set_, 'str': str_,
}


# --- math / numpy / scipy -------------------------------------------------

def _elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, Family):
            return coll.fam_map(x, lambda v: f(v, *a, **k))
        if isinstance(x, (list, tuple)):
            return symarray([f(v, *a, **k) for v in x])
        if isinstance(x, np.ndarray) and x.ndim:
            return symarray([f(v, *a, **k) for v in x])
        return f(x, *a, **k)
    return g


class symarray(list):
    """A 1-d array with some symbolic entries."""
    __array_ufunc__ = None

    def _bin(self, o, f):
        if isinstance(o, (list, np.ndarray)) and not np.isscalar(o):
            if builtins.len(o) != builtins.len(self):
                raise Unsupported('shape mismatch')
            return symarray([f(a, b) for a, b in builtins.zip(self, o)])
        return symarray([f(a, o) for a in self])

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __neg__(self): return symarray([-a for a in self])

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return symarray(r) if isinstance(i, slice) else r

    @property
    def shape(self):
        return (builtins.len(self),)

    @property
    def size(self):
        return builtins.len(self)
    ndim = 1

    def sum(self): return builtins.sum(self)
    def copy(self): return symarray(self)
    def tolist(self): return list(self)
    def max(self): return max_(list(self))


def np_asarray(x, *a, **k):
    if isinstance(x, Family):
        return coll.np_family(x)
    if isinstance(x, Sym):
        return x
    if isinstance(x, (list, tuple)) and not any(
            isinstance(v, (list, tuple, np.ndarray)) for v in x):
        return symarray(x)
    if isinstance(x, (list, tuple)):
        return np_table(x)
    return x


def np_table(x):
    """A 2-d array with some symbolic entries (compared and passed on only:
    no library function takes it)."""
    rows = [list(r) if isinstance(r, (list, tuple)) else None for r in x]
    if any(r is None or len(r) != len(rows[0]) for r in rows):
        raise Unsupported('2-d symbolic array')
    if not all(isinstance(v, (int, float, Sym)) for r in rows for v in r):
        raise Unsupported('2-d symbolic array')
    t = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            t[i, j] = v
    return t


def np_sum(x, axis=None):
    if isinstance(x, types.GeneratorType):
        return builtins.sum(x)
    return sum_(x)


def np_max(x):
    return max_(x)


def np_allclose(a, b, rtol=1e-5, atol=1e-8):
    return abs(a - b) <= atol + rtol * abs(b)


def np_exp(x):
    return sym.exp(x)


def norm_logpdf(x, loc=0, scale=1):
    z = (x - loc) / scale
    return (-0.5 * sym.log(SymReal(2 * sym.PI)) - sym.log(scale)
            - z * z / 2.)


def norm_cdf(x, loc=0, scale=1):
    z = (x - loc) / scale
    return SymReal(sym.NORMCDF(sym.real_term(z)))


def gamma_logpdf(x, a, loc=0, scale=1):
    if not (x - loc > 0):
        return float('-inf')
    y = (x - loc) / scale
    return (a - 1.) * sym.log(y) - y - sym.gammaln(a) - sym.log(scale)


def expon_logpdf(x, loc=0, scale=1):
    if not (x - loc >= 0):
        return float('-inf')
    return -(x - loc) / scale - sym.log(scale)


def uniform_logpdf(x, loc=0, scale=1):
    if not (scale > 0):
        return float('nan')
    if loc <= x and x <= loc + scale:
        return -sym.log(scale)
    return float('-inf')


def beta_logpdf(x, a, b, loc=0, scale=1):
    if loc != 0 or scale != 1:
        raise Unsupported('beta.logpdf loc/scale')
    if not (x > 0 and x < 1):
        raise Unsupported('beta.logpdf on the boundary')
    return ((a - 1.) * sym.log(x) + (b - 1.) * sym.log(1 - x)
            - sym.betaln(a, b))


def np_logaddexp_reduce(x):
    return sp_logsumexp(x)


def sp_logsumexp(x, axis=None, b=None):
    fam = coll.as_family(x)
    if b is not None:
        raise Unsupported('logsumexp with weights')
    return sym.log(coll.fold_sum(coll.fam_map(fam, sym.exp).parts))


def np_cumsum(x):
    if isinstance(x, Family):
        raise Unsupported('cumsum of an unbounded sequence')
    out, t = [], 0
    for v in x:
        t = t + v
        out.append(t)
    return symarray(out)


def _object(a):
    """An array of objects with the entries of a."""
    if isinstance(a, np.ndarray):
        return a if a.dtype == object else a.astype(object)
    if any(isinstance(v, (list, tuple, np.ndarray)) for v in a):
        return np_table([list(v) for v in a])
    t = np.empty(builtins.len(a), dtype=object)
    for i, v in builtins.enumerate(a):
        t[i] = v
    return t


def np_dot(a, b):
    if any(isinstance(x, Family) or not isinstance(x, (list, tuple, np.ndarray))
           for x in (a, b)):
        return builtins.sum(x * y for x, y in builtins.zip(a, b))
    a, b = _object(a), _object(b)
    if a.shape[-1] != b.shape[0]:
        raise ValueError('shapes not aligned')
    if a.ndim == b.ndim == 1:
        return builtins.sum(x * y for x, y in builtins.zip(a, b))
    r = np.dot(a, b)
    return symarray(r) if r.ndim == 1 else r


def np_transpose(a):
    t = np.transpose(_object(a))
    return symarray(t) if t.ndim == 1 else t


def _square(a):
    a = _object(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 2:
        raise Unsupported('a matrix of order above 2')
    return a


def np_det(a):
    a = _square(a)
    if builtins.len(a) == 1:
        return a[0, 0]
    return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]


def np_inv(a):
    a = _square(a)
    d = np_det(a)
    r = np.empty(a.shape, dtype=object)
    if builtins.len(a) == 1:
        r[0, 0] = 1 / sym.to_real(d)
        return r
    d = sym.to_real(d)
    r[0, 0], r[1, 1] = a[1, 1] / d, a[0, 0] / d
    r[0, 1], r[1, 0] = -a[0, 1] / d, -a[1, 0] / d
    return r


def np_slogdet(a):
    d = np_det(a)
    return (1., sym.log(d)) if d > 0 else (-1., sym.log(-d))


def np_solve(a, b):
    return np_dot(np_inv(a), b)


def np_zeros(n, *a, **k):
    if isinstance(n, Sym):
        fam = coll.rng_family(n)
        p = fam.parts[0]
        return NpFamily([Dom(p.dom, p.kvar, p.guard, SymReal(z3.RealVal(0)))],
                        'range')
    return np.zeros(n, *a, **k)


def np_eye(n, *a, **k):
    return np.eye(n, *a, **k).astype(object)


def np_ones(n, *a, **k):
    if isinstance(n, Sym):
        fam = coll.rng_family(n)
        p = fam.parts[0]
        return NpFamily([Dom(p.dom, p.kvar, p.guard, SymReal(z3.RealVal(1)))],
                        'range')
    return np.ones(n, *a, **k)


def np_bincount(x, *a, **k):
    """The number of occurrences of 0, ..., max(x) among given integers."""
    x = norm(x)
    if a or k or not builtins.any(isinstance(v, Sym) for v in x):
        return np.bincount(x, *a, **k)
    x = builtins.list(x)
    if not builtins.all(isinstance(v, (SymInt, builtins.int)) for v in x):
        raise TypeError('Cannot cast to int')
    if not builtins.all(v >= 0 for v in x):
        raise ValueError('list must not contain negative elements')
    m = x[0]
    for v in x[1:]:
        m = max_(m, v)
    fam = coll.rng_family(SymInt(sym.int_term(m) + 1))
    p = fam.parts[0]
    n = z3.Sum(*[z3.If(sym.int_term(v) == p.kvar, 1, 0) for v in x]) \
        if builtins.len(x) > 1 else z3.If(
            sym.int_term(x[0]) == p.kvar, z3.IntVal(1), z3.IntVal(0))
    return NpFamily([Dom(p.dom, p.kvar, p.guard, SymInt(n))], 'range')


def np_concatenate(xs, *a, **k):
    xs = list(xs)
    if a or k or not all(np.ndim(x) == 1 if isinstance(x, np.ndarray) else
                         isinstance(x, (list, tuple)) for x in xs):
        raise Unsupported('concatenate')
    return symarray([v for x in xs for v in x])


def np_isnan(x):
    if isinstance(x, np.ndarray) and x.ndim > 1:
        out = np.zeros(x.shape, dtype=bool)
        for i in np.ndindex(*x.shape):
            out[i] = builtins.bool(sym.isnan(x[i]))
        return out
    return _elementwise(sym.isnan)(x)


def np_binop(f):
    def g(a, b):
        if isinstance(a, (Family, list, tuple, np.ndarray)) or isinstance(
                b, (Family, list, tuple, np.ndarray)):
            return f(np_asarray(a), b if isinstance(b, Sym) else
                     np_asarray(b) if isinstance(
                         b, (Family, list, tuple)) else b)
        return f(a, b)
    return g


def np_linspace(a, b, n=50):
    if not isinstance(n, Sym):
        if n == 1:
            return symarray([a * 1.])
        return symarray([a + (b - a) * i / SymReal(z3.RealVal(n - 1))
                         for i in builtins.range(n)])
    if not (n >= 2):
        raise Unsupported('linspace of fewer than two points')
    fam = coll.rng_family(n)
    return coll.np_family(coll.fam_map(
        fam, lambda i: a + (b - a) * (i * 1.) / (n * 1. - 1.)))


HANDLERS = {
    'math.fabs': abs, 'numpy.fabs': _elementwise(abs),
    'numpy.subtract': np_binop(lambda a, b: a - b),
    'numpy.add': np_binop(lambda a, b: a + b),
    'numpy.multiply': np_binop(lambda a, b: a * b),
    'numpy.divide': np_binop(lambda a, b: a / b),
    'numpy.linspace': np_linspace,
    'math.log': sym.math_log, 'math.exp': sym.exp, 'math.lgamma': sym.lgamma,
    'math.sqrt': sym.sqrt, 'math.isnan': sym.isnan, 'math.isinf': sym.isinf,
    'math.sin': lambda x: SymReal(sym.SIN(sym.real_term(x))),
    'math.cos': lambda x: SymReal(sym.COS(sym.real_term(x))),
    'math.atan2': lambda y, x: SymReal(sym.ATAN2(sym.real_term(y),
                                                 sym.real_term(x))),
    'math.floor': sym.floor,
    'math.pow': sym.power,
    'numpy.log': _elementwise(sym.log), 'numpy.exp': _elementwise(sym.exp),
    'numpy.sqrt': _elementwise(sym.sqrt),
    'numpy.sin': _elementwise(lambda x: SymReal(sym.SIN(sym.real_term(x)))),
    'numpy.cos': _elementwise(lambda x: SymReal(sym.COS(sym.real_term(x)))),
    'numpy.isnan': np_isnan,
    'numpy.concatenate': np_concatenate,
    'numpy.isinf': _elementwise(sym.isinf),
    'numpy.isfinite': _elementwise(sym.isfinite),
    'numpy.abs': _elementwise(abs), 'numpy.absolute': _elementwise(abs),
    'numpy.floor': _elementwise(sym.floor),
    'numpy.sum': np_sum, 'numpy.max': np_max, 'numpy.amax': np_max,
    'numpy.min': min_, 'numpy.amin': min_,
    'numpy.asarray': np_asarray, 'numpy.array': np_asarray,
    'numpy.copy': np_asarray,
    'numpy.allclose': np_allclose, 'numpy.cumsum': np_cumsum,
    'numpy.bincount': np_bincount,
    'numpy.dot': np_dot, 'numpy.zeros': np_zeros,
    'numpy.transpose': np_transpose, 'numpy.matmul': np_dot,
    'numpy.linalg.det': np_det, 'numpy.linalg.inv': np_inv,
    'numpy.linalg.solve': np_solve, 'numpy.linalg.slogdet': np_slogdet,
    'numpy.eye': np_eye, 'numpy.ones': np_ones,
    'numpy.any': any_, 'numpy.all': all_,
    'numpy.isscalar': lambda x: True,
    'numpy.power': sym.power,
    'numpy.mean': lambda x: sum_(x) / len_(x),
    'numpy.square': _elementwise(lambda x: x * x),
    'numpy.float64': float_, 'numpy.round': round_,
    'scipy.special.gammaln': _elementwise(sym.gammaln),
    'scipy.special.loggamma': _elementwise(sym.gammaln),
    'scipy.special.betaln': sym.betaln,
    'scipy.special.i0': lambda x: SymReal(sym.BESI0(sym.real_term(x))),
    'scipy.special.i1': lambda x: SymReal(sym.BESI1(sym.real_term(x))),
    'scipy.special.logsumexp': sp_logsumexp,
    'scipy.stats.norm.logpdf': norm_logpdf,
    'scipy.stats.norm.cdf': norm_cdf,
    'scipy.stats.gamma.logpdf': gamma_logpdf,
    'scipy.stats.expon.logpdf': expon_logpdf,
    'scipy.stats.uniform.logpdf': uniform_logpdf,
    'scipy.stats.beta.logpdf': beta_logpdf,
}

# Functions whose value at a concrete argument is kept symbolic, so that
# identities between constants are decided exactly.
_SYMCONST = {'math.log', 'numpy.log', 'math.lgamma', 'math.sqrt',
             'numpy.sqrt', 'scipy.special.gammaln', 'scipy.special.betaln',
             'scipy.special.i0', 'math.cos', 'math.sin'}

USED = set()


class Dispatch(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.__name__ = getattr(fn, '__name__', name)
        self.__doc__ = getattr(fn, '__doc__', None)

    def __call__(self, *a, **k):
        if sym.active():
            s = any(has_sym(x) for x in a) or any(
                has_sym(x) for x in k.values())
            c = not s and self.name in _SYMCONST and all(
                sym._const(x) and x > 0 for x in a) and not k
            if s or c or self.name in _ALWAYS:
                h = HANDLERS.get(self.name)
                if h is None:
                    raise Unsupported('no contract for %s' % self.name)
                cur().used.add(self.name)
                return h(*a, **k)
        return self.fn(*a, **k)

    def __getattr__(self, n):
        return getattr(self.fn, n)

    def __repr__(self):
        return '<dispatch %s>' % self.name


_LIB = ('numpy', 'scipy', 'math', 'itertools')
_ALWAYS = ('numpy.eye',)


class LibProxy(object):
    def __init__(self, name, mod):
        self.__dict__['_name'], self.__dict__['_mod'] = name, mod
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        c = self._cache
        if n in c:
            return c[n]
        v = wrap(getattr(self._mod, n), '%s.%s' % (self._name, n))
        c[n] = v
        return v

    def __call__(self, *a, **k):
        if sym.active() and hasattr(self._mod, 'logpdf'):
            return Frozen(self, a, k)
        return self._mod(*a, **k)


class Frozen(object):
    """A distribution with given parameters."""

    def __init__(self, law, a, k):
        self._law, self._a, self._k = law, a, k

    def __getattr__(self, n):
        if n.startswith('__') or n == 'rvs':
            raise AttributeError(n)
        f = getattr(self._law, n)
        return lambda x: f(x, *self._a, **self._k)


class Chain(object):
    """itertools.chain"""

    def __call__(self, *xs):
        if sym.active() and any(isinstance(x, (Family, SymMap, MixDict))
                                for x in xs):
            return Family([p for x in xs
                           for p in coll.as_family(norm(x)).parts])
        return itertools.chain(*xs)

    @staticmethod
    def from_iterable(x):
        if sym.active():
            y = norm(x) if isinstance(
                x, (types.GeneratorType, Family, SymMap)) else x
            if isinstance(y, Family) and not y.explicit():
                return coll.fam_flatmap(y, lambda v: v)
            if isinstance(y, (builtins.list, tuple)) or isinstance(y, Family):
                y = builtins.list(y)
                if any(isinstance(v, (Family, SymMap)) for v in y):
                    return CHAIN(*y)
            return itertools.chain.from_iterable(y)
        return itertools.chain.from_iterable(x)


CHAIN = Chain()


def wrap(v, name):
    if v is itertools.chain:
        return CHAIN
    if isinstance(v, types.ModuleType):
        root = v.__name__.split('.')[0]
        if root in _LIB:
            return LibProxy(v.__name__, v)
        return v
    if name in HANDLERS and not isinstance(v, Dispatch):
        return Dispatch(name, v)
    if isinstance(v, (np.ufunc, types.BuiltinFunctionType,
                      types.FunctionType)) or callable(v) and \
            type(v).__name__ in ('_ArrayFunctionDispatcher',):
        return Dispatch(name, v)
    # scipy.stats distributions are objects with methods
    if hasattr(v, 'logpdf') and hasattr(v, 'rvs') and not isinstance(v, type):
        return LibProxy(name, v)
    return v


def _origin(v):
    """The canonical dotted name of a library function bound in a module."""
    m = getattr(v, '__module__', None)
    if isinstance(v, np.ufunc):
        import scipy.special
        if getattr(scipy.special, v.__name__, None) is v:
            return 'scipy.special.' + v.__name__
        return 'numpy.' + v.__name__
    if isinstance(v, types.BuiltinFunctionType) and m == 'math':
        return 'math.' + v.__name__
    if isinstance(v, (types.FunctionType,)) and m:
        root = m.split('.')[0]
        if root == 'scipy' and m.startswith('scipy.special'):
            return 'scipy.special.' + v.__name__
        if root in ('numpy', 'scipy'):
            return '%s.%s' % (root, v.__name__)
    if m == 'numpy.linalg' and callable(v):
        return 'numpy.linalg.' + v.__name__
    return None


def patch_module(module):
    """After the module body ran: route its library names."""
    d = module.__dict__
    for name, v in list(d.items()):
        if name.startswith('__') or name in BUILTINS or name in py2.HELPERS:
            continue
        if isinstance(v, types.ModuleType):
            root = v.__name__.split('.')[0]
            if root in _LIB:
                d[name] = LibProxy(v.__name__, v)
        elif hasattr(v, 'logpdf') and hasattr(v, 'rvs') \
                and type(v).__module__.startswith('scipy.stats'):
            d[name] = LibProxy('scipy.stats.%s' % v.name, v)
        elif v is itertools.chain:
            d[name] = CHAIN
        else:
            o = _origin(v)
            if o is not None:
                d[name] = Dispatch(o, v)


def pre_module(module):
    module.__dict__.update(BUILTINS)
