"""Symbolic values and path exploration.

The real (mechanically translated) cgpm code is executed by CPython on these
proxy values.  A branch on a symbolic condition asks the current Path which
way to go; vf.explore re-runs the function until every feasible combination of
branches has been taken.  Python floats are read as mathematical reals
together with the explicit values +inf, -inf and nan (which stay ordinary
Python floats).
"""
import math
from fractions import Fraction

import numpy as np

from . import deps  # noqa: F401
import z3

R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """The construct is outside the symbolic executor's reach."""


class PathEnd(BaseException):
    """This path is finished (an assumption is false, or a cut point)."""


class TooManyPaths(Unsupported):
    pass


# --------------------------------------------------------------------------
# Uninterpreted mathematical functions.

_FUNCS = {}


def ufunc(name, *sorts):
    f = _FUNCS.get(name)
    if f is None:
        f = _FUNCS[name] = z3.Function(name, *sorts)
    return f


LOG = ufunc('log', R, R)
EXP = ufunc('exp', R, R)
LGAMMA = ufunc('lgamma', R, R)
SQRT = ufunc('sqrt', R, R)
COS = ufunc('cos', R, R)
SIN = ufunc('sin', R, R)
ATAN2 = ufunc('atan2', R, R, R)
BESI0 = ufunc('bessel_i0', R, R)
BESI1 = ufunc('bessel_i1', R, R)
NORMCDF = ufunc('norm_cdf', R, R)
PI = z3.Real('PI')


# --------------------------------------------------------------------------
# The current path.

FEAS_MS = [500]


def limit(s, ms):
    """Bound a query by deterministic resource units (about ms
    milliseconds on an idle machine); the clock is only a safety net."""
    s.set('rlimit', 3000 * ms)
    s.set('timeout', 8 * ms)


class Path(object):
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []
        self.pc = []
        self.pcset = set()
        self.implied = set()     # members of pc that follow from the rest
        self.counter = {}
        self.ghost = {}
        self.sums = {}
        self.domains = {}
        self.facts = []         # universally valid facts about fresh symbols
        self.log = []
        self.solver_time = 0.0
        self.feas_timeout = FEAS_MS[0]
        self.used = set()
        self.positives = []      # terms proved positive (lemmas)
        self.possp = []

    def fresh(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return name if k == 0 else '%s!%d' % (name, k)

    def add(self, f):
        f = z3.simplify(f) if z3.is_expr(f) else z3.BoolVal(bool(f))
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.implied.discard(i)
        self.pc.append(f)
        if z3.is_not(f) and z3.is_quantifier(f.arg(0)) and \
                f.arg(0).is_forall() and f.arg(0).num_vars() == 1 and \
                not self.__dict__.get('scope'):
            # a witness, of which the facts of its domains are known
            q = f.arg(0)
            w = z3.Const(self.fresh('witness'), q.var_sort(0))
            self.add(z3.Not(z3.substitute_vars(q.body(), w)))

    def check(self, *extra):
        import time
        t = time.time()
        from . import prove
        lin = [f for f in self.pc if not prove.nonlinear(f)]
        if len(lin) < len(self.pc):
            s = z3.Solver()
            limit(s, self.feas_timeout)
            ex = list(extra)
            for f in lin + ex + [f for f in self.facts
                                 if not prove.nonlinear(f)]:
                s.add(f)
            for f in basic_axioms(lin + ex):
                s.add(f)
            if s.check() == z3.unsat:
                self.solver_time += time.time() - t
                return z3.unsat
        s = z3.Solver()
        limit(s, self.feas_timeout)
        for f in self.facts:
            s.add(f)
        for f in self.pc:
            s.add(f)
        for f in extra:
            s.add(f)
        for f in basic_axioms(list(self.pc) + list(extra)):
            s.add(f)
        r = s.check()
        self.solver_time += time.time() - t
        return r

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = z3.simplify(z3.Not(c))
        if c.get_id() in self.pcset:
            return True
        if n.get_id() in self.pcset:
            return False
        pos = len(self.taken)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.taken.append(d)
            self.add(c if d else n)
            self.mark(c if d else n, isinstance(d, bool))
            return bool(d)
        sg = None
        if self.positives:
            from . import prove
            sg = prove.sign_known(self, c)
        if sg is not None:
            t, f = sg, not sg
        else:
            t = self.check(c) != z3.unsat
            f = self.check(n) != z3.unsat
        if t and f:
            # choices are numbers, forced decisions are truth values
            self.pending.append(self.taken + [0])
            self.taken.append(1)
            self.add(c)
            self.mark(c, False)
            return True
        if not t and not f:
            raise PathEnd()
        # Only one side is possible: record it so that replays line up.
        t = bool(t)
        self.taken.append(t)
        self.add(c if t else n)
        self.mark(c if t else n, True)
        return t

    def mark(self, f, implied):
        if implied:
            self.implied.add(f.get_id())
        else:
            self.implied.discard(f.get_id())

    def bound(self, f):
        """A fact about an arbitrary function."""
        f = z3.simplify(f)
        if f.get_id() not in self.pcset:
            self.add(f)
            self.mark(f, True)


CUR = None


def cur():
    if CUR is None:
        raise Unsupported('no current path')
    return CUR


def active():
    return CUR is not None


def set_path(p):
    global CUR
    old = CUR
    CUR = p
    return old


# --------------------------------------------------------------------------
# Axioms instantiated from the terms that occur.

def walk(exprs):
    seen, stack, out = set(), list(exprs), []
    while stack:
        e = stack.pop()
        if not z3.is_expr(e):
            continue
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(e)
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())
    return out


_HAS_VAR = {}
_GROUND = {}


def _has_var(e):
    i = e.get_id()
    r = _HAS_VAR.get(i)
    if r is None:
        # kept with the term, so that its id stays its own
        r = _HAS_VAR[i] = (any(z3.is_var(x) for x in walk([e])), e)
    return r[0]


def ground(exprs):
    """The applications of uninterpreted functions without bound variables
    that occur in `exprs`, each once."""
    seen, out = set(), []
    for e in reversed(list(exprs)):
        if not z3.is_expr(e):
            continue
        i = e.get_id()
        hit = _GROUND.get(i)
        if hit is None:
            hit = _GROUND[i] = ([
                (x.get_id(), x) for x in walk([e])
                if z3.is_app(x) and x.num_args() and
                x.decl().kind() == z3.Z3_OP_UNINTERPRETED
                and not _has_var(x)], e)
        for k, x in hit[0]:
            if k not in seen:
                seen.add(k)
                out.append(x)
    return out


_INSTANCE = {}


def _instance(e, x, k, v):
    i = (e.get_id(), x.get_id(), k.get_id())
    r = _INSTANCE.get(i)
    if r is None:
        r = _INSTANCE[i] = (z3.Implies(e, z3.substitute(x, (k, v))), e, x, k)
    return r[0]


def member_axioms(terms, seen=None, depth=4):
    """What was assumed of every member of a domain, for each membership
    that is mentioned."""
    if CUR is None:
        return []
    domfacts = CUR.__dict__.get('domfacts') or {}
    seen = set() if seen is None else seen
    out = []
    for e in terms:
        name = e.decl().name()
        if not name.startswith('in_') or e.get_id() in seen:
            continue
        seen.add(e.get_id())
        args = e.children()
        key = (name[3:],) + tuple(x.sexpr() for x in args[:-1]) + (None, None)
        card = 'card_' + name[3:]
        out.append(z3.Implies(e, (z3.Int(card) if len(args) == 1 else ufunc(
            card, *([z3.IntSort()] * len(args)))(*args[:-1])) >= 1))
        for kf, facts in domfacts.get(key, ()):
            out += [_instance(e, x, kf, args[-1]) for x in facts]
    if out and depth:
        out += member_axioms(ground(out), seen, depth - 1)
    return out


def basic_axioms(exprs):
    ax = [PI > z3.RealVal('3.14159'), PI < z3.RealVal('3.1416')]
    byf = {}
    exprs = list(exprs)
    terms = ground(exprs)
    more = member_axioms(terms)
    if more:
        ax += more
        terms = ground(exprs + more)
    for e in terms:
        byf.setdefault(e.decl().name(), []).append(e)
    for e in byf.get('exp', []):
        a = e.arg(0)
        ax.append(e > 0)
        ax.append(e >= 1 + a)
        ax.append(z3.Implies(a == 0, e == 1))
        ax.append(z3.Implies(a < 0, e < 1))
    for e in byf.get('log', []):
        a = e.arg(0)
        ax.append(z3.Implies(a > 0, z3.And(
            e <= a - 1, (e == 0) == (a == 1), (e > 0) == (a > 1))))
        if z3.is_app(a) and a.decl().name() == 'exp':
            ax.append(e == a.arg(0))
    for e in byf.get('sqrt', []):
        a = e.arg(0)
        ax.append(z3.Implies(a >= 0, z3.And(e >= 0, e * e == a)))
        ax.append(z3.Implies(a > 0, e > 0))
    for c in byf.get('cos', []):
        ax += [c >= -1, c <= 1]
    for s in byf.get('sin', []):
        ax += [s >= -1, s <= 1]
        for c in byf.get('cos', []):
            if c.arg(0).eq(s.arg(0)):
                ax.append(c * c + s * s == 1)
    for e in byf.get('bessel_i0', []):
        ax.append(e >= 1)
    for e in byf.get('norm_cdf', []):
        ax += [e > 0, e < 1]
        for g in byf.get('norm_cdf', []):
            if not e.eq(g):
                ax.append((e.arg(0) < g.arg(0)) == (e < g))
    return ax


# --------------------------------------------------------------------------
# Values.

def to_rational(x):
    """The exact rational a decimal literal denotes."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('non-finite constant in a real term')
    k = _known(x)
    if k is not None:
        return k
    return z3.RealVal(str(Fraction(repr(x))))


_KNOWN = None


def _known(x):
    """Floats that denote closed forms are read as those closed forms."""
    global _KNOWN
    if _KNOWN is None:
        two = z3.RealVal(2)
        base = [(math.pi, PI), (math.log(2), LOG(two)),
                (math.log(math.pi), LOG(PI)),
                (math.log(2 * math.pi), LOG(two) + LOG(PI)),
                (math.sqrt(2 * math.pi), SQRT(2 * PI)),
                (math.sqrt(math.pi), SQRT(PI)), (math.sqrt(2), SQRT(two))]
        _KNOWN = []
        for v, t in base:
            for num, den in ((1, 1), (1, 2), (2, 1), (3, 2), (4, 1), (1, 4)):
                for s in (1, -1):
                    q = s * num / den
                    _KNOWN.append((v * q, z3.RealVal(
                        '%d/%d' % (s * num, den)) * t if q != 1 else t))
    for v, t in _KNOWN:
        if x == v or (abs(x - v) < 4e-16 * abs(v)):
            return t
    return None


def is_sym(x):
    return isinstance(x, Sym)


NUM = (int, float, np.integer, np.floating, np.bool_)


def real_term(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymCell):
        x = x.resolve()
        if isinstance(x, SymReal):
            return x.t
        raise Unsupported('a missing value as a real')
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, NUM):
        return to_rational(x)
    if isinstance(x, np.ndarray) and x.shape == ():
        return to_rational(x.item())
    raise Unsupported('not a real: %s' % type(x).__name__)


def int_term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)) and float(x).is_integer():
        return z3.IntVal(int(x))
    if isinstance(x, SymReal):
        return z3.ToInt(x.t)
    raise Unsupported('not an int: %s' % type(x).__name__)


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class Sym(object):
    __array_ufunc__ = None
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<%s>' % (str(self.t)[:200],)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return cur().decide(self.t)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.t == o.t)
        if isinstance(o, (bool, np.bool_)):
            return SymBool(self.t if o else z3.Not(self.t))
        return SymBool(real_term(self) == real_term(o))

    def __ne__(self, o):
        return ~(self == o)

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        return SymBool(z3.And(self.t, bool_term(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.t, bool_term(o)))

    __rand__, __ror__ = __and__, __or__
    __hash__ = Sym.__hash__

    def _num(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__


def bool_term(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    if isinstance(x, (SymReal, SymInt)):
        return x.t != 0
    raise Unsupported('not a bool: %s' % type(x).__name__)


def _cmp(name):
    def f(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return NotImplemented
        if nonfinite(o):
            o = float(o)
            if math.isnan(o):
                return False
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0}[name]
        if isinstance(o, SymExt):
            return NotImplemented
        if isinstance(self, SymInt) and isinstance(
                o, (SymInt, int, np.integer)):
            a, b = self.t, int_term(o)
        else:
            a, b = real_term(self), real_term(o)
        return SymBool({'lt': lambda: a < b, 'le': lambda: a <= b,
                        'gt': lambda: a > b, 'ge': lambda: a >= b}[name]())
    return f


def _mk(a, b, op):
    """Arithmetic with int/real promotion."""
    if isinstance(a, (SymInt, int, np.integer)) and isinstance(
            b, (SymInt, int, np.integer)) and not isinstance(a, bool):
        return SymInt(op(int_term(a), int_term(b)))
    return SymReal(op(real_term(a), real_term(b)))


def _arith(fn):
    def f(self, o):
        if isinstance(o, SymBool):
            o = o._num()
        if not isinstance(o, (Sym,) + NUM) or isinstance(o, SymExt):
            if isinstance(o, np.ndarray) and o.shape == ():
                o = o.item()
            else:
                return NotImplemented
        return fn(self, o)
    return f


def _sign(x):
    """-1, 0 or 1, deciding by path."""
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


class SymNum(Sym):
    __slots__ = ()

    @_arith
    def __add__(self, o):
        if nonfinite(o):
            return float(o)
        return _mk(self, o, lambda a, b: a + b)

    __radd__ = __add__

    @_arith
    def __sub__(self, o):
        if nonfinite(o):
            return -float(o)
        return _mk(self, o, lambda a, b: a - b)

    @_arith
    def __rsub__(self, o):
        if nonfinite(o):
            return float(o)
        return _mk(o, self, lambda a, b: a - b)

    @_arith
    def __mul__(self, o):
        if nonfinite(o):
            s = _sign(self)
            return float(o) * s if s else float('nan')
        return _mk(self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    @_arith
    def __truediv__(self, o):
        return _div(self, o)

    @_arith
    def __rtruediv__(self, o):
        return _div(o, self)

    @_arith
    def __floordiv__(self, o):
        return _floordiv(self, o)

    @_arith
    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    @_arith
    def __mod__(self, o):
        return _mod(self, o)

    @_arith
    def __rmod__(self, o):
        return _mod(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return type(self)(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.t >= 0, self.t, -self.t))

    __lt__, __le__ = _cmp('lt'), _cmp('le')
    __gt__, __ge__ = _cmp('gt'), _cmp('ge')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        if nonfinite(o):
            return False
        if not isinstance(o, (Sym,) + NUM):
            return NotImplemented
        if isinstance(self, SymInt) and isinstance(
                o, (SymInt, int, np.integer)):
            return SymBool(self.t == int_term(o))
        return SymBool(real_term(self) == real_term(o))

    def __ne__(self, o):
        r = self == o
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = Sym.__hash__

    def __bool__(self):
        return cur().decide(self.t != 0)

    def is_integer(self):
        if isinstance(self, SymInt):
            return True
        return SymBool(z3.IsInt(self.t))

    def conjugate(self):
        return self

    # numpy scalar look-alikes
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self


class SymReal(SymNum):
    __slots__ = ()

    def __float__(self):
        raise Unsupported('float() of a symbolic value in C code')

    def __int__(self):
        raise Unsupported('int() of a symbolic value in C code')


class SymInt(SymNum):
    __slots__ = ()

    def __mul__(self, o):
        if type(o) is list:
            from . import coll
            return coll.repeat(o, self)
        return SymNum.__mul__(self, o)

    __rmul__ = __mul__

    def __float__(self):
        raise Unsupported('float() of a symbolic value in C code')

    def __index__(self):
        c = z3.simplify(self.t)
        if z3.is_int_value(c):
            return c.as_long()
        if CUR is not None:
            from . import coll
            for n in range(3):
                if coll.known(self.t == n):
                    return n
        raise Unsupported('index with a symbolic integer')

    def __int__(self):
        return self.__index__()


class SymExt(Sym):
    """An extended real: -inf unless `fin`."""
    __slots__ = ('fin',)

    def __init__(self, fin, t):
        self.fin, self.t = fin, t

    def __repr__(self):
        return '<ext %s ? %s>' % (self.fin, self.t)

    def _lift(self, o):
        if isinstance(o, SymExt):
            return o.fin, o.t
        if nonfinite(o):
            if o == -math.inf:
                return z3.BoolVal(False), z3.RealVal(0)
            raise Unsupported('extended arithmetic with %r' % o)
        return z3.BoolVal(True), real_term(o)

    def __add__(self, o):
        f, t = self._lift(o)
        return SymExt(z3.simplify(z3.And(self.fin, f)), self.t + t)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymExt) or nonfinite(o):
            raise Unsupported('ext - ext')
        return SymExt(self.fin, self.t - real_term(o))

    def resolve(self):
        if cur().decide(self.fin):
            return SymReal(self.t)
        return float('-inf')

    def __eq__(self, o):
        if isinstance(o, SymExt):
            return SymBool(z3.And(self.fin == o.fin, z3.Implies(
                self.fin, self.t == o.t)))
        if nonfinite(o):
            return SymBool(z3.Not(self.fin)) if o == -math.inf else False
        if isinstance(o, (Sym,) + NUM):
            return SymBool(z3.And(self.fin, self.t == real_term(o)))
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __lt__(self, o):
        return self.resolve() < o

    def __le__(self, o):
        return self.resolve() <= o

    def __gt__(self, o):
        return self.resolve() > o

    def __ge__(self, o):
        return self.resolve() >= o

    def __neg__(self):
        return -self.resolve()

    def __mul__(self, o):
        return self.resolve() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.resolve() / o

    __hash__ = Sym.__hash__


class SymCell(Sym):
    """A cell of a table: a real, or nan if `nan`."""
    __slots__ = ('nan',)

    def __init__(self, nan, t):
        self.nan, self.t = nan, t

    def __repr__(self):
        return '<cell %s ? nan : %s>' % (self.nan, self.t)

    def resolve(self):
        if cur().decide(self.nan):
            return float('nan')
        return SymReal(self.t)

    def _vf_subst(self, pairs):
        return SymCell(z3.substitute(self.nan, *pairs),
                       z3.substitute(self.t, *pairs))

    def same(self, o):
        """The same cell: both missing, or both observed with one value."""
        if isinstance(o, SymCell):
            return z3.And(self.nan == o.nan, z3.Implies(
                z3.Not(self.nan), self.t == o.t))
        if nonfinite(o):
            return self.nan if math.isnan(o) else z3.BoolVal(False)
        return z3.And(z3.Not(self.nan), self.t == real_term(o))

    __hash__ = Sym.__hash__


def _cell_op(name):
    import operator
    op = getattr(operator, name)

    def f(self, *o):
        o = [x.resolve() if isinstance(x, SymCell) else x for x in o]
        return op(self.resolve(), *o)
    return f


def _cell_rop(name):
    import operator
    op = getattr(operator, name)
    return lambda self, o: op(o, self.resolve())


for _n in ('add', 'sub', 'mul', 'truediv', 'lt', 'le', 'gt', 'ge', 'eq',
           'ne', 'neg', 'abs', 'mod', 'floordiv', 'pow'):
    setattr(SymCell, '__%s__' % _n, _cell_op(_n))
for _n in ('add', 'sub', 'mul', 'truediv', 'mod', 'floordiv', 'pow'):
    setattr(SymCell, '__r%s__' % _n, _cell_rop(_n))


def _div(a, b):
    if isinstance(a, SymCell):
        a = a.resolve()
    if isinstance(b, SymCell):
        b = b.resolve()
    if nonfinite(b):
        if math.isnan(b):
            return float('nan')
        return 0.0
    if nonfinite(a):
        s = _sign(b)
        if s == 0:
            raise ZeroDivisionError('float division by zero')
        return float(a) * s
    bt = real_term(b)
    if cur().decide(bt == 0):
        raise ZeroDivisionError('float division by zero')
    return SymReal(real_term(a) / bt)


def _floordiv(a, b):
    if isinstance(a, (SymInt, int, np.integer)) and isinstance(
            b, (SymInt, int, np.integer)):
        bt = int_term(b)
        if cur().decide(bt == 0):
            raise ZeroDivisionError('integer division by zero')
        at = int_term(a)
        # z3 div is Euclidean; it is floor for a positive divisor.
        if cur().decide(bt > 0):
            return SymInt(at / bt)
        return SymInt((-at) / (-bt))
    q = _div(a, b)
    if nonfinite(q):
        return q
    return SymReal(z3.ToReal(z3.ToInt(real_term(q))))


def _mod(a, b):
    if isinstance(a, (SymInt, int, np.integer)) and isinstance(
            b, (SymInt, int, np.integer)):
        bt = int_term(b)
        if not cur().decide(bt > 0):
            raise Unsupported('modulo by a non-positive integer')
        return SymInt(int_term(a) % bt)
    if nonfinite(a) or nonfinite(b):
        return float('nan')
    at, bt = real_term(a), real_term(b)
    if not cur().decide(bt > 0):
        raise Unsupported('modulo by a non-positive real')
    return SymReal(at - bt * z3.ToReal(z3.ToInt(at / bt)))


def py2_div(a, b):
    """Classic Python 2 division on (possibly symbolic) numbers."""
    if isinstance(a, SymBool):
        a = a._num()
    if isinstance(b, SymBool):
        b = b._num()
    if isinstance(a, (SymInt, int, np.integer)) and isinstance(
            b, (SymInt, int, np.integer)):
        return _floordiv(a, b)
    return a / b


def power(a, b):
    if is_sym(b):
        if isinstance(b, SymInt):
            c = z3.simplify(b.t)
            if z3.is_int_value(c):
                return power(a, c.as_long())
        # a ** b = exp(b log a) for a > 0
        at = real_term(a)
        if cur().decide(at > 0):
            return SymReal(EXP(real_term(b) * LOG(at)))
        raise Unsupported('power with a non-positive base')
    if isinstance(b, (float, np.floating)) and float(b).is_integer():
        r = power(a, int(b))
        return SymReal(real_term(r))
    if isinstance(b, (int, np.integer)):
        b = int(b)
        if b == 0:
            return 1
        if b < 0:
            return _div(1, power(a, -b))
        r = a
        for _ in range(b - 1):
            r = r * a
        return r
    if float(b) == .5:
        return sqrt(a)
    if float(b) == -.5:
        return _div(1, sqrt(a))
    at = real_term(a)
    if cur().decide(at > 0):
        return SymReal(EXP(to_rational(b) * LOG(at)))
    raise Unsupported('fractional power of a non-positive base')


# --------------------------------------------------------------------------
# Transcendental functions (assumed contracts on math/numpy/scipy.special).

def _const(x):
    return isinstance(x, NUM) and not nonfinite(x)


def log(x, base=None, strict=False):
    if base is not None:
        return log(x) / log(base)
    if isinstance(x, SymExt):
        raise Unsupported('log of an extended real')
    if nonfinite(x):
        return math.log(x) if x > 0 else float('nan')
    t = z3.simplify(real_term(x))
    if z3.is_rational_value(t) and t.as_fraction() == 1:
        return 0.0
    if z3.is_app(t) and t.decl().name() == 'exp' and t.num_args() == 1:
        return SymReal(t.arg(0))
    if cur().decide(t > 0):
        return SymReal(LOG(t))
    if strict:
        raise ValueError('math domain error')
    if cur().decide(t == 0):
        return float('-inf')
    return float('nan')


def math_log(x, base=None):
    return log(x, base, strict=True)


def exp(x):
    if isinstance(x, SymExt):
        return SymReal(z3.If(x.fin, EXP(x.t), z3.RealVal(0)))
    if nonfinite(x):
        return math.exp(x)
    t = z3.simplify(real_term(x))
    if z3.is_rational_value(t) and t.as_fraction() == 0:
        return 1.0
    if t.decl().eq(LOG):
        c = t.arg(0)
        if z3.is_rational_value(c) and c.as_fraction() > 0:
            return SymReal(c)
    return SymReal(EXP(t))


def gammaln(x):
    t = z3.simplify(real_term(x))
    if z3.is_rational_value(t) and t.as_fraction() in (1, 2):
        return 0.0
    return SymReal(LGAMMA(t))


def lgamma(x):
    t = real_term(x)
    if not cur().decide(t > 0):
        raise Unsupported('lgamma outside (0, inf)')
    return gammaln(x)


def betaln(a, b):
    return gammaln(a) + gammaln(b) - gammaln(a + b)


def sqrt(x):
    if nonfinite(x):
        return math.sqrt(x) if x > 0 else float('nan')
    t = real_term(x)
    if not cur().decide(t >= 0):
        raise Unsupported('square root of a negative real')
    return SymReal(SQRT(t))


def isnan(x):
    if isinstance(x, SymCell):
        return SymBool(x.nan)
    if isinstance(x, Sym):
        return False
    return x != x


def isinf(x):
    if isinstance(x, SymExt):
        return SymBool(z3.Not(x.fin))
    if isinstance(x, SymCell):
        return isinf(x.resolve())
    if isinstance(x, Sym):
        return False
    return x in (math.inf, -math.inf)


def isfinite(x):
    return not isnan(x) and not isinf(x)


def floor(x):
    return SymReal(z3.ToReal(z3.ToInt(real_term(x))))


def to_int(x):
    """int(x): truncation toward zero."""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._num()
    if isinstance(x, SymExt):
        x = x.resolve()
        if not is_sym(x):
            raise OverflowError('cannot convert float infinity to integer')
    t = x.t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return SymInt(t.arg(0))
    return SymInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def to_real(x):
    if isinstance(x, (SymReal, SymExt)):
        return x
    return SymReal(real_term(x))


def value_of(c):
    """A z3 model value as a Python number."""
    if z3.is_int_value(c):
        return c.as_long()
    if z3.is_rational_value(c):
        return float(c.as_fraction())
    if z3.is_algebraic_value(c):
        return float(c.approx(20).as_fraction())
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return None
