"""Contract units: one text, run symbolically (proof) and concretely (replay).

A unit is a function of an environment E.  It sets up an arbitrary state that
satisfies the precondition / invariant, runs functions of the real code, and
states postconditions with E.ensure / E.ensure_eq / E.raises.  Under SymE the
state is symbolic and every postcondition is an obligation for the prover on
every path; under ConE the state is drawn at random (or taken from a
counter-model) and the same postconditions are evaluated on the real code.
"""
import importlib
import math
import time
import traceback

import numpy as np

UNITS = {}          # property -> [unit]


class Unit(object):
    def __init__(self, prop, name, fn, targets, prove, trials, bounded):
        self.prop, self.name, self.fn = prop, name, fn
        self.targets = targets
        self.prove, self.trials, self.bounded = prove, trials, bounded

    @property
    def id(self):
        return '%s/%s' % (self.prop, self.name)


def unit(props, name, targets=(), prove=True, trials=40, bounded=None):
    """Register a contract unit for one or several properties."""
    if isinstance(props, str):
        props = [props]

    def deco(fn):
        for p in props:
            UNITS.setdefault(p, []).append(
                Unit(p, name, fn, tuple(targets), prove, trials, bounded))
        return fn
    return deco


def bounded(props, name, targets=(), trials=40, bound=''):
    """A unit that is only run concretely (never counted as proved)."""
    return unit(props, name, targets, prove=False, trials=trials,
                bounded=bound)


class Reject(Exception):
    """The drawn state does not satisfy the precondition."""


class Violation(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name, self.detail = name, detail


class Stub(object):
    """Base of the objects that stand for a callee's contract: whatever the
    contract does not mention is unknown, not an error of the caller."""

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_vf'):
            raise AttributeError(name)
        unknown('%s of a contract stub' % name)


def unknown(what):
    """The specification says nothing about this: no verdict."""
    from vf import sym
    if sym.CUR is not None:
        raise sym.Unsupported(what)
    raise Reject()


_BARE = {}


class EnvBase(object):
    symbolic = False

    def bare(self, cls):
        """An instance without attributes; one that the specification does
        not set is unknown."""
        if cls not in _BARE:
            _BARE[cls] = type(cls.__name__, (cls,), {
                '__getattr__': Stub.__getattr__})
        return _BARE[cls].__new__(_BARE[cls])

    def mod(self, name):
        return importlib.import_module(name)

    def replace(self, obj, name, fn):
        """Put fn in place of a method of the object (a callee known by its
        contract); the arguments are bound by the real signature."""
        import inspect
        real = getattr(type(obj), name, None)
        if real is None:
            unknown('no method %s' % name)
        sig = inspect.signature(real)
        want = [p for p in inspect.signature(fn).parameters.values()]
        if len(sig.parameters) - 1 != len(want):
            unknown('signature of %s' % name)

        def call(*a, **k):
            try:
                b = sig.bind(obj, *a, **k)
            except TypeError:
                raise TypeError('arguments of %s' % name)
            b.apply_defaults()
            return fn(*list(b.arguments.values())[1:])
        setattr(obj, name, call)

    def get(self, path):
        """'cgpm.primitives.normal:Normal.logpdf' -> the object."""
        m, _, q = path.partition(':')
        o = importlib.import_module(m)
        for part in q.split('.'):
            o = getattr(o, part)
        return o

    def raises(self, excs, fn, name=None):
        """Ensure fn() raises one of excs; any other outcome violates."""
        try:
            r = fn()
        except excs as e:
            return e
        self.fail(name or 'rejects invalid input',
                  'no exception, returned %r' % (r,))


# --------------------------------------------------------------------------
# Concrete environment.

class ConE(EnvBase):
    def __init__(self, seed, given=None, trial=0):
        self.r = np.random.RandomState(seed % (2 ** 32))
        self.given = given or {}
        self.draws = {}
        self.trial = trial
        self.checked = 0
        self.names = {}
        self.undo = []

    def _name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return n if k == 0 else '%s!%d' % (n, k)

    def note(self, n, v):
        self.draws[n] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True,
             typical=None):
        n = self._name(name)
        if n in self.given and isinstance(self.given[n], (int, float)):
            v = float(self.given[n])
            if math.isfinite(v) and abs(v) < 1e8:
                return self.note(n, v)
        r = self.r
        if lo is not None and hi is not None:
            c = r.randint(6)
            if c == 0 and not lo_open:
                v = lo
            elif c == 1 and not hi_open:
                v = hi
            else:
                v = lo + (hi - lo) * r.uniform(.02, .98)
        elif lo is not None:
            c = r.randint(5)
            if c == 0 and not lo_open:
                v = lo
            elif c == 1:
                v = lo + 1.
                if isinstance(lo, int) and r.randint(2):
                    return self.note(n, lo + 1 + int(r.randint(3)))
            elif c == 2:
                v = lo + r.uniform(.02, 1.)
            else:
                v = lo + r.gamma(2.) + .01
        elif hi is not None:
            v = hi - r.gamma(2.) - .01
        else:
            c = r.randint(6)
            if c == 0:
                v = float(r.randint(-3, 4))
            elif c == 1:
                v = r.normal() * 10
            elif c == 2:
                return self.note(n, int(r.randint(-4, 5)))
            else:
                v = r.normal() * 2
        return self.note(n, float(v))

    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        if n in self.given and isinstance(self.given[n], int) and abs(
                self.given[n]) < 10 ** 6:
            v = self.given[n]
            if (lo is None or v >= lo) and (hi is None or v < hi):
                return self.note(n, v)
        if lo is None and hi is None:
            v = int(self.r.randint(-20, 50))
        elif hi is None:
            v = lo + int(self.r.choice(
                [0, 0, 1, 1, 2, 3, 4, self.r.randint(0, 30)]))
        elif lo is None:
            v = hi - 1 - int(self.r.randint(0, 30))
        else:
            v = int(self.r.randint(lo, max(hi, lo + 1)))
        return self.note(n, v)

    def size(self, name, lo=0, hi=6):
        return self.int('size_' + name, lo, hi)

    def choice(self, name, options):
        n = self._name(name)
        i = int(self.r.randint(len(options)))
        self.note(n, repr(options[i])[:80])
        return options[i]

    def flag(self, name):
        n = self._name(name)
        if n in self.given and isinstance(self.given[n], bool):
            return self.note(n, self.given[n])
        return self.note(n, bool(self.r.randint(2)))

    def assume(self, c):
        if not c:
            raise Reject()

    def lemma(self, name, c):
        pass

    def positive(self, name, x):
        pass

    def ensure(self, name, c, detail=None):
        self.checked += 1
        if not c:
            self.fail(name, detail)

    def ensure_eq(self, name, a, b, tol=1e-6):
        self.checked += 1
        if not close(a, b, tol):
            self.fail(name, '%r != %r' % (a, b))

    def fail(self, name, detail=None):
        raise Violation(name, detail)

    # ---- collections
    def map(self, name, gen, keys=None, lo=0, hi=6):
        """dict[int -> gen()] of arbitrary size."""
        if keys is not None:
            return dict((k, gen(k)) for k in keys)
        n = self.size(name, lo, hi)
        ks = []
        while len(ks) < n:
            k = int(self.r.randint(0, 40))
            if k not in ks:
                ks.append(k)
        return dict((k, gen(k)) for k in ks)

    def ordered_map(self, name, gen, lo=0, hi=6):
        from collections import OrderedDict
        m = self.map(name, gen, lo=lo, hi=hi)
        return OrderedDict(m.items())

    def objects(self, name, make, lo=0, hi=6, keys=None):
        """dict[int -> make(k)] of objects, of arbitrary size."""
        self.events = []
        return self.map(name, make, keys=keys, lo=lo, hi=hi)

    def assume_each(self, m, cond):
        """Every key of m satisfies cond."""
        for k in m:
            self.assume(cond(k))

    @staticmethod
    def has(m, k):
        return k in m

    def assume_below(self, n, cond):
        """cond holds for 0, ..., n-1."""
        for i in range(n):
            self.assume(cond(i))

    def dict(self, pairs):
        return dict(pairs)

    def empty_map(self):
        return {}

    def map_over(self, m, f):
        """{k: f(k)} for the keys of m."""
        return dict((k, f(k)) for k in m)

    def keys(self, m):
        ks = list(m)
        self.r.shuffle(ks)
        return ks

    @staticmethod
    def keyset(m):
        return set(m)

    @staticmethod
    def any(xs):
        return any(xs)

    @staticmethod
    def truth(x):
        return bool(x)

    @staticmethod
    def pairs(m):
        return list(m.items())

    @staticmethod
    def dict_of(pairs):
        return dict(pairs)

    @staticmethod
    def copy(m):
        return dict(m)

    @staticmethod
    def filtered(f, xs):
        return [x for x in xs if f(x)]

    def part_of(self, name, m, gen):
        """An arbitrary map on some of the keys of m."""
        return dict((k, gen(k)) for k in m if self.r.randint(2))

    def submap(self, m, cond, f=lambda k: None):
        """The keys of m satisfying cond, with the values f."""
        return dict((k, f(k)) for k in m if cond(k))

    def objects_over(self, m, name, make):
        """Objects for the keys of m."""
        self.events = []
        return dict((k, make(k)) for k in m)

    def same(self, a, b):
        return close(a, b)

    @staticmethod
    def missing(x):
        return x != x

    def object_list(self, name, make, lo=0, hi=6):
        """[make(0), ..., make(n-1)] and the same as a dict."""
        self.events = []
        d = dict((i, make(i)) for i in range(self.size(name, lo, hi)))
        return [d[i] for i in sorted(d)], d

    def family_eq(self, name, a, b):
        a, b = list(a), list(b)
        self.ensure(name + ' (shape)', len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.ensure_eq('%s[%d]' % (name, i), x, y)

    def mapped(self, f, xs):
        return [f(x) for x in xs]

    events = ()

    def setattr(self, o, name, v):
        setattr(o, name, v)

    def rounds(self, log, round_of, havoc=None, inv=None):
        return ConRounds(log, round_of)

    def loops(self, log, rules):
        return ConLoops(log)

    def same_maps(self, name, a, b):
        self.ensure_eq(name, dict(a), dict(b))

    def same_members(self, name, a, b):
        self.ensure(name, set(a) == set(b), (a, b))

    def ext(self, name):
        return -math.inf if self.r.randint(4) == 0 else self.real(name)

    def occasion(self, name):
        n = self.__dict__.setdefault('_occasions', {})
        n[name] = n.get(name, -1) + 1
        return n[name]

    def may(self, finite, x):
        return x if finite > 0 else -math.inf

    def steps(self, seq, numbers=(), maps=(), each=None):
        return ConSteps()

    def event(self, kind, key, payload=None):
        if self.events == ():
            self.events = []
        self.events.append((kind, key, payload))

    def ensure_each(self, name, m, kind, check=lambda k, p: True):
        """Exactly one event of the kind for each key of m, and no other."""
        ev = [(k, p) for n, k, p in self.events if n == kind]
        self.ensure(name, sorted(k for k, _ in ev) == sorted(m), ev)
        for k, p in ev:
            self.ensure(name, check(k, p), (k, p))

    def fold(self, m, f):
        return sum(f(k, v) for k, v in m.items())

    def array(self, name, n, gen):
        return np.array([gen(k) for k in range(n)], dtype=float)

    def seq(self, name, gen, lo=0, hi=6):
        return [gen(k) for k in range(self.size(name, lo, hi))]

    def upto(self, n):
        return dict((i, i) for i in range(n))

    def table(self, name, n, f):
        """[f(0), ..., f(n-1)]"""
        return [f(i) for i in range(n)]

    def func(self, name, sort='real', lo=None, hi=None):
        """An arbitrary function of integers (memoised random values)."""
        memo = {}

        def f(*args):
            key = tuple(args)
            if key not in memo:
                memo[key] = (self.real(name, lo, hi) if sort == 'real'
                             else self.int(name, lo, hi))
            return memo[key]
        return f

    def cells(self, name):
        memo = {}

        def f(*args):
            if args not in memo:
                memo[args] = float('nan') if self.r.randint(3) == 0 else \
                    self.real(name)
            return memo[args]
        return f

    def sum(self, fam, f=lambda x: x):
        return sum(f(x) for x in fam)

    def length(self, x):
        return len(x)

    def forall(self, name, fam, cond):
        for x in fam:
            self.ensure(name, cond(x))

    def pick(self, name, m):
        """An arbitrary key of a nonempty map."""
        ks = list(m)
        if not ks:
            raise Reject()
        return self.note(self._name(name), ks[self.r.randint(len(ks))])

    # ---- contracts in place of callees: only the verifier uses them
    def stub(self, path, fn):
        pass

    def patch(self, path, fn):
        """Replace a callee in both environments (undone afterwards)."""
        m, _, q = path.partition(':')
        o = importlib.import_module(m)
        parts = q.split('.')
        for part in parts[:-1]:
            o = getattr(o, part)
        old = o.__dict__[parts[-1]]
        self.undo.append((o, parts[-1], old))
        setattr(o, parts[-1], staticmethod(fn) if isinstance(
            old, staticmethod) else fn)

    def unpatch(self):
        for o, n, old in reversed(self.undo):
            setattr(o, n, old)
        self.undo = []

    def is_int(self, x):
        return float(x).is_integer()

    def isfinite(self, x):
        return math.isfinite(float(x))

    def indices(self, n):
        return range(n)

    @staticmethod
    def scalar(x):
        """The element of an array of one element."""
        x = np.ravel(x)
        assert len(x) == 1
        return x[0].item()

    def same_law_at(self, name, draws, items, logw):
        """The one draw picks items[i] with probability proportional to
        exp(logw(i)); no draw is needed for a single item."""
        items = list(items)
        if len(items) == 1 and not draws:
            return
        self.ensure(name + ': one draw', len(draws) == 1, len(draws))
        kind, prm, val = draws[0]
        self.ensure(name + ': a categorical draw', kind == 'choice', kind)
        self.ensure_eq(name + ': the alternatives', list(prm['a']), items)
        w = np.array([float(logw(i)) for i in range(len(items))])
        w = np.exp(w - w.max())
        self.ensure_eq(name + ': the probabilities', list(prm['p']),
                       list(w / w.sum()))

    def same_law(self, name, draw, items, logw):
        """The draw picks item i with probability proportional to
        exp(logw(i))."""
        kind, prm, val = draw
        self.ensure(name + ': a categorical draw', kind == 'choice', kind)
        items = list(items)
        self.ensure_eq(name + ': the alternatives', list(prm['a']), items)
        w = np.array([float(logw(i)) for i in items])
        w = np.exp(w - w.max())
        self.ensure_eq(name + ': the probabilities', list(prm['p']),
                       list(w / w.sum()))

    # ---- functions of analysis
    log = staticmethod(lambda x: float(np.log(x)))
    exp = staticmethod(lambda x: float(np.exp(x)))
    sqrt = staticmethod(lambda x: float(np.sqrt(x)))
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)
    pi = math.pi

    @staticmethod
    def lgamma(x):
        from scipy.special import gammaln
        return float(gammaln(x))

    @staticmethod
    def bessel0(x):
        from scipy.special import i0
        return float(i0(x))

    @staticmethod
    def normcdf(x):
        from scipy.stats import norm
        return float(norm.cdf(x))

    def rng(self):
        return RecRng(np.random.RandomState(self.r.randint(2 ** 31)))

    def If(self, c, a, b):
        return a if c else b

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def eq(self, a, b):
        return close(a, b)

    def is_neginf(self, x):
        return isinstance(x, (float, np.floating)) and x == -math.inf


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol)
                                        for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(
            close(x, y, tol) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


# RandomState methods: parameter names and defaults, so that a draw is
# recorded by meaning, not by spelling.
RNG_SIG = {
    'gamma': (('shape', None), ('scale', 1.)),
    'beta': (('a', None), ('b', None)),
    'normal': (('loc', 0.), ('scale', 1.)),
    'exponential': (('scale', 1.),),
    'geometric': (('p', None),),
    'poisson': (('lam', 1.),),
    'negative_binomial': (('n', None), ('p', None)),
    'uniform': (('low', 0.), ('high', 1.)),
    'vonmises': (('mu', None), ('kappa', None)),
    'chisquare': (('df', None),),
    'standard_gamma': (('shape', None),),
    'standard_normal': (),
    'standard_exponential': (),
    'rand': (),
    'randn': (),
    'random_sample': (),
    'lognormal': (('mean', 0.), ('sigma', 1.)),
}

# Draws with the same law are recorded under one name.
def canonical_draw(name, p):
    if name == 'standard_gamma':
        return 'gamma', {'shape': p['shape'], 'scale': 1.}
    if name in ('standard_normal', 'randn'):
        return 'normal', {'loc': 0., 'scale': 1.}
    if name == 'standard_exponential':
        return 'exponential', {'scale': 1.}
    if name in ('rand', 'random_sample'):
        return 'uniform', {'low': 0., 'high': 1.}
    return name, p


def bind(name, a, k):
    sig = RNG_SIG[name]
    p = {}
    for (n, d), v in zip(sig, a):
        p[n] = v
    for n, v in k.items():
        p[n] = v
    for n, d in sig:
        if n not in p:
            p[n] = d
    size = p.pop('size', None)
    if len(a) > len(sig):
        size = a[len(sig)]
    return p, size


class ConSteps(object):
    """Asked once in every iteration."""

    def __init__(self):
        self.n = -1

    def now(self):
        self.n += 1
        return self.n


class ConRounds(object):
    def __init__(self, log, round_of):
        self.log, self.round_of = log, round_of

    def done(self):
        m, rest = 0, list(self.log)
        while rest:
            r = self.round_of(m)
            if rest[:len(r)] != r:
                break
            m, rest = m + 1, rest[len(r):]
        return m, rest


class ConLoops(object):
    def __init__(self, log):
        self.log = log

    def done(self):
        return list(self.log)


class RecRng(object):
    """A RandomState that records the law of each draw and its value."""

    def __init__(self, rng):
        self._rng = rng
        self.draws = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(self._rng, name)
        if name == 'choice':
            def choice(a, size=None, replace=True, p=None):
                v = f(a, size=size, replace=replace, p=p)
                n = a if isinstance(a, (int, np.integer)) else len(a)
                self.draws.append(('choice', {
                    'a': list(range(a)) if isinstance(
                        a, (int, np.integer)) else list(a),
                    'p': [1. / n] * n if p is None else list(p)}, v))
                return v
            return choice
        if name == 'randint':
            def randint(low, high=None, size=None, **k):
                v = f(low, high, size, **k)
                b = range(low) if high is None else range(low, high)
                if size is None and len(b) < 100:
                    self.draws.append(('choice', {
                        'a': list(b), 'p': [1. / len(b)] * len(b)}, v))
                return v
            return randint
        if name == 'multivariate_normal':
            def mvn(mean, cov, *a, **k):
                v = f(mean, cov, *a, **k)
                self.draws.append(('multivariate_normal', {
                    'mean': mean, 'cov': cov}, v))
                return v
            return mvn
        if name in RNG_SIG:
            def g(*a, **k):
                v = f(*a, **k)
                p, size = bind(name, a, k)
                n, p = canonical_draw(name, p)
                self.draws.append((n, p, v))
                return v
            return g
        return f


# --------------------------------------------------------------------------

def trial(u, seed, given=None, n=0):
    """Run a unit once concretely -> (status, env, detail)."""
    E = ConE(seed, given, n)
    try:
        u.fn(E)
    except Reject:
        return 'reject', E, None
    except Violation as v:
        return 'violation', E, dict(obligation=v.name, detail=str(v.detail))
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        return 'violation', E, dict(
            obligation='no unexpected exception',
            detail='%s: %s' % (type(ex).__name__, ex),
            where=['%s:%s %s' % (f.filename, f.lineno, f.name)
                   for f in tb[-6:]])
    finally:
        E.unpatch()
    return 'ok', E, None
