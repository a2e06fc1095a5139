"""Unbounded symbolic collections: domains, families, maps, and folds.

A Family is a finite sequence of unknown length given by parts; a part is
either one explicit value or `value(k) for k in D if guard(k)` for a Domain D
(a finite set of integers of unknown size).  Comprehensions and for-loops of
the code under proof over a Family run their body once, for a generic k, and
yield a Family (or a fold over it); this is the inductive step of the loop
invariant "the result so far is the image of the elements seen so far".
"""
import builtins
import math
import sys

from . import deps  # noqa: F401
import z3

from . import sym
from .sym import (Sym, SymBool, SymExt, SymInt, SymReal, Unsupported, cur,
                  int_term, real_term)


# --------------------------------------------------------------------------
# Scopes: bound variables currently in force (generic loop elements).

def scope():
    return cur().__dict__.setdefault('scope', [])


def fresh(name, sort):
    """A fresh constant, or a fresh function of the bound variables."""
    p = cur()
    n = p.fresh(name)
    sc = scope()
    if not sc:
        return z3.Const(n, sort)
    f = z3.Function(n, *([z3.IntSort()] * len(sc) + [sort]))
    return f(*sc)


def note_member(dom, k):
    if not scope():
        ms = cur().__dict__.setdefault('members', {}).setdefault(dom.name, [])
        if not any(k.eq(m) for m in ms):
            ms.append(k)


def known(c):
    """Does the path condition imply c? (no branching)"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    p = cur()
    if c.get_id() in p.pcset:
        return True
    memo = p.__dict__.setdefault('knownset', {})
    hit = memo.get(c.get_id())
    if hit is not None and (hit[0] or hit[1] == len(p.pc)):
        # an implied fact stays implied while pc grows
        if not hit[0] or hit[2] <= len(p.pc):
            return hit[0]
    r = p.check(z3.Not(c)) == z3.unsat
    memo[c.get_id()] = (r, len(p.pc), len(p.pc), c)
    return r


class Domain(object):
    """A finite set of integers of unknown size."""

    def __init__(self, name, params=(), lo=None, hi=None):
        self.name, self.params = name, tuple(params)
        self.lo, self.hi = lo, hi

    def _f(self, what, *sorts):
        return sym.ufunc('%s_%s' % (what, self.name),
                         *([z3.IntSort()] * len(self.params) + list(sorts)))

    def member(self, k):
        if self.hi is not None:
            return z3.And(self.lo <= k, k < self.hi)
        return self._f('in', z3.IntSort(), z3.BoolSort())(*self.params, k)

    def card(self):
        if self.hi is not None:
            if sym.active() and known(self.lo <= self.hi):
                return z3.simplify(self.hi - self.lo)
            return z3.If(self.hi > self.lo, self.hi - self.lo, z3.IntVal(0))
        c = self._f('card', z3.IntSort())
        c = c(*self.params) if self.params else z3.Int('card_' + self.name)
        return c

    def subst(self, pairs):
        return Domain(self.name,
                      [z3.substitute(p, *pairs) for p in self.params],
                      None if self.lo is None else
                      z3.substitute(self.lo, *pairs),
                      None if self.hi is None else
                      z3.substitute(self.hi, *pairs))

    def facts(self):
        return [self.card() >= 0]

    def key(self):
        return (self.name,) + tuple(p.sexpr() for p in self.params) + (
            None if self.lo is None else z3.simplify(self.lo).sexpr(),
            None if self.hi is None else z3.simplify(self.hi).sexpr())


def regen(t):
    """Re-register sums whose parameters became ground, so that facts about
    the instance are available."""
    p = sym.CUR
    if p is None or not p.sums:
        return t
    sc = set(v.get_id() for v in scope())
    reps = []
    for e in sym.walk([t]):
        if z3.is_app(e) and e.num_args() and \
                e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            rec = p.sums.get(e.decl().name())
            if rec is None:
                continue
            if any(x.get_id() in sc or z3.is_var(x)
                   for x in sym.walk(e.children())):
                continue
            pr = list(zip(rec['params'], e.children()))
            n = _sum(rec['dom'].subst(pr), rec['kvar'],
                     z3.substitute(rec['guard'], *pr),
                     z3.substitute(rec['body'], *pr), rec['isint'])
            if not n.eq(e):
                reps.append((e, n))
    return z3.substitute(t, *reps) if reps else t


def member_ctx(dom, k):
    """k is a member, and what was assumed of every member."""
    out = [dom.member(k)]
    for kf, facts in cur().__dict__.setdefault('domfacts', {}).get(
            dom.key(), ()):
        out += [z3.substitute(x, (kf, k)) for x in facts]
    return out


def subst(v, pairs):
    """Substitute bound variables in a structured value."""
    if not pairs:
        return v
    if isinstance(v, SymExt):
        return SymExt(z3.substitute(v.fin, *pairs), z3.substitute(v.t, *pairs))
    if isinstance(v, sym.SymCell):
        return v._vf_subst(pairs)
    if isinstance(v, Sym):
        return type(v)(regen(z3.substitute(v.t, *pairs)))
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return type(v)(*[subst(x, pairs) for x in v])
    if isinstance(v, (list, tuple)):
        return type(v)([subst(x, pairs) for x in v])
    if isinstance(v, Family):
        return Family([subst_part(p, pairs) for p in v.parts], v.token)
    if type(v) is dict:
        return dict((k, subst(x, pairs)) for k, x in v.items())
    if hasattr(v, '_vf_subst'):
        return v._vf_subst(pairs)
    return v


class One(object):
    def __init__(self, value):
        self.value = value


class Dom(object):
    def __init__(self, dom, kvar, guard, value):
        self.dom, self.kvar, self.guard, self.value = dom, kvar, guard, value

    def at(self, k):
        pairs = [(self.kvar, k)]
        return (z3.substitute(self.guard, *pairs), subst(self.value, pairs))


def subst_part(p, pairs):
    if isinstance(p, One):
        return One(subst(p.value, pairs))
    return Dom(p.dom.subst(pairs), p.kvar, z3.substitute(p.guard, *pairs),
               subst(p.value, pairs))


TRUE = z3.BoolVal(True)


class Family(object):
    """A finite sequence whose length may be unknown."""

    def __init__(self, parts, token=None, sorted_=False):
        self.parts = list(parts)
        self.token = token

    def explicit(self):
        return all(isinstance(p, One) for p in self.parts)

    def values(self):
        if not self.explicit():
            raise Unsupported('explicit values of an unbounded sequence')
        return [p.value for p in self.parts]

    def __iter__(self):
        if self.explicit():
            return iter(self.values())
        raise Unsupported('native iteration over an unbounded sequence')

    def __len__(self):
        if self.explicit():
            return len(self.parts)
        raise Unsupported('native len() of an unbounded sequence')

    def length(self):
        n = 0
        for p in self.parts:
            if isinstance(p, One):
                n = n + 1
            elif z3.is_true(z3.simplify(p.guard)):
                n = n + SymInt(p.dom.card())
            else:
                n = n + fold_sum([Dom(p.dom, p.kvar, p.guard, 1)])
        return n

    def __bool__(self):
        if not self.parts:
            return False
        r = self.length()
        return bool(r > 0)

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            return Family(self.parts + [One(x) for x in o])
        if isinstance(o, Family):
            return Family(self.parts + o.parts)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return Family([One(x) for x in o] + self.parts)
        return NotImplemented

    def __getitem__(self, i):
        if self.explicit():
            return self.values()[i]
        lead = 0
        while isinstance(self.parts[lead], One):
            lead += 1
        if isinstance(i, slice):
            a, b = i.start or 0, i.stop
            if i.step in (None, 1) and isinstance(a, int) and 0 <= a <= lead:
                if b is None:
                    return type(self)(self.parts[a:])
                if isinstance(b, int) and not isinstance(b, Sym) \
                        and 0 <= b <= lead:
                    return [p.value for p in self.parts[a:b]]
            # at the border of two parts
            at = []
            for x in (0 if i.start is None else i.start,
                      self.length() if i.stop is None else i.stop):
                n = 0
                for j, p in enumerate(self.parts + [None]):
                    if known(int_term(n) == int_term(x)):
                        at.append(j)
                        break
                    if p is not None:
                        n = n + Family([p]).length()
            if i.step in (None, 1) and len(at) == 2 and at[0] <= at[1]:
                ps = self.parts[at[0]:at[1]]
                if all(isinstance(p, One) for p in ps):
                    return [p.value for p in ps]
                return type(self)(ps)
            raise Unsupported('slice of an unbounded sequence')
        if isinstance(i, int) and 0 <= i < lead:
            return self.parts[i].value
        if i == 0 and not isinstance(i, Sym) and len(self.parts) == 1 and \
                self.parts[0].dom.hi is None and \
                z3.is_true(z3.simplify(self.parts[0].guard)):
            # some element is the first one
            p = self.parts[0]
            if not cur().decide(p.dom.card() >= 1):
                raise IndexError('list index out of range')
            k = p.dom._f('first', z3.IntSort())
            k = k(*p.dom.params) if p.dom.params else z3.Int(
                'first_' + p.dom.name)
            for x in member_ctx(p.dom, k):
                cur().add(x)
            note_member(p.dom, k)
            return p.at(k)[1]
        if len(self.parts) == 1 and isinstance(self.parts[0], Dom) and \
                self.parts[0].dom.hi is not None:
            p = self.parts[0]
            k = int_term(i)
            if not cur().decide(k >= 0):
                k = k + p.dom.hi
            if not cur().decide(z3.And(p.dom.lo <= k, k < p.dom.hi)):
                raise IndexError('list index out of range')
            for c in member_ctx(p.dom, k):
                cur().add(c)
            return p.at(k)[1]
        if all(isinstance(p, One) or (
                p.dom.hi is not None and z3.is_true(z3.simplify(p.guard)))
                for p in self.parts):
            k = int_term(i)
            if not cur().decide(k >= 0):
                k = k + int_term(self.length())
                if not cur().decide(k >= 0):
                    raise IndexError('list index out of range')
            for p in self.parts:
                n = z3.IntVal(1) if isinstance(p, One) else \
                    p.dom.hi - p.dom.lo
                if cur().decide(k < n):
                    if isinstance(p, One):
                        return p.value
                    j = z3.simplify(k + p.dom.lo)
                    for c in member_ctx(p.dom, j):
                        cur().add(c)
                    return p.at(j)[1]
                k = z3.simplify(k - n)
            raise IndexError('list index out of range')
        raise Unsupported('indexing an unbounded sequence')

    def __setitem__(self, i, v):
        if isinstance(i, slice) or scope() or not all(
                isinstance(p, One) or (p.dom.hi is not None and
                                       z3.is_true(z3.simplify(p.guard)))
                for p in self.parts):
            raise Unsupported('assignment into an unbounded sequence')
        k = int_term(i)
        if not cur().decide(k >= 0):
            k = k + int_term(self.length())
            if not cur().decide(k >= 0):
                raise IndexError('list assignment index out of range')
        for j, p in enumerate(self.parts):
            n = z3.IntVal(1) if isinstance(p, One) else int_term(
                SymInt(p.dom.card()))
            if cur().decide(k < n):
                if isinstance(p, One):
                    new = [One(v)]
                else:
                    d, at = p.dom, z3.simplify(k + p.dom.lo)
                    new = [
                        Dom(Domain(d.name, d.params, d.lo, at), p.kvar,
                            p.guard, p.value), One(v),
                        Dom(Domain(d.name, d.params, z3.simplify(at + 1),
                                   d.hi), p.kvar, p.guard, p.value)]
                self.parts[j:j + 1] = new
                self.token = None
                return
            k = z3.simplify(k - n)
        raise IndexError('list assignment index out of range')

    def append(self, v):
        if scope():
            raise Unsupported('append inside a generic iteration')
        self.parts.append(One(v))

    def extend(self, o):
        self.parts.extend(as_family(o).parts)

    def __contains__(self, x):
        for p in self.parts:
            if isinstance(p, One):
                if p.value == x:
                    return True
            else:
                # only for families of domain keys
                if isinstance(p.value, SymInt) and p.value.t.eq(p.kvar):
                    k = int_term(x)
                    if cur().decide(z3.And(
                            p.dom.member(k),
                            z3.substitute(p.guard, (p.kvar, k)))):
                        return True
                elif isinstance(p.value, SymInt) and isinstance(
                        x, (int, SymInt)):
                    if cur().decide(exists_term(
                            p.dom, p.kvar, p.guard,
                            p.value.t == int_term(x))):
                        return True
                else:
                    raise Unsupported('membership in an unbounded sequence')
        return False

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('== on an unbounded sequence')

    __hash__ = None

    def index(self, x):
        raise Unsupported('index() on an unbounded sequence')

    def __repr__(self):
        return '<family %d parts>' % len(self.parts)

    def copy(self):
        return Family(self.parts, self.token)

    # numpy look-alikes: elementwise arithmetic
    __array_ufunc__ = None

    def _map(self, f):
        return fam_map(self, f)

    def __sub__(self, o):
        if isinstance(o, (Sym, float, int)):
            return self._map(lambda x: x - o)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, (Sym, float, int)):
            return self._map(lambda x: x * o)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, (Sym, float, int)):
            return self._map(lambda x: x / o)
        return NotImplemented

    @property
    def shape(self):
        return (self.length(),)


class NpFamily(Family):
    """An array-like family: + is elementwise."""

    def _zip(self, o, f):
        from .shims import zip_
        if isinstance(o, (Sym, float, int)):
            return np_family(self._map(lambda x: f(x, o)))
        if isinstance(o, (Family, list, tuple)):
            return np_family(as_family(zip_(self, o))._map(
                lambda t: f(*t)))
        return NotImplemented

    def __add__(self, o):
        return self._zip(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._zip(o, lambda x, y: y + x)

    def __sub__(self, o):
        return self._zip(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._zip(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self._zip(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._zip(o, lambda x, y: x / y)

    def __rtruediv__(self, o):
        return self._zip(o, lambda x, y: y / x)

    def __setitem__(self, i, v):
        """Pointwise update of an index-range array."""
        if not (len(self.parts) == 1 and isinstance(self.parts[0], Dom)
                and self.parts[0].dom.hi is not None) or scope():
            raise Unsupported('assignment into an unbounded sequence')
        p = self.parts[0]
        k = int_term(i)
        if not cur().decide(z3.And(p.dom.lo <= k, k < p.dom.hi)):
            raise Unsupported('array index out of range or negative')
        self.parts = [Dom(p.dom, p.kvar, p.guard, merge(
            [(p.kvar == k, v), (p.kvar != k, p.value)]))]

    def copy(self):
        return NpFamily(self.parts, self.token)


def np_family(f):
    return NpFamily(f.parts, f.token)


def as_family(x):
    if isinstance(x, Family):
        return x
    if isinstance(x, SymMap):
        return x.keys()
    if hasattr(x, 'unbounded') and x.unbounded():
        return x.keys()
    if hasattr(x, '_distinct'):
        return x._distinct()
    return Family([One(v) for v in x])


class Poison(object):
    """A value written in an iteration of an unbounded loop: unknown at the
    start of another iteration and after the loop."""

    def _bad(self, *a, **k):
        raise Unsupported('use of a loop temporary after an unbounded loop')
    __getattr__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = _bad
    __rmul__ = __bool__ = __iter__ = __len__ = __getitem__ = _bad
    __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __abs__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __float__ = _bad
    __hash__ = None


_heap = []      # one dict of written cells per generic scope


class Frame(dict):
    """The written cells of a step; the containers that it may change."""

    def __init__(self, allowed):
        dict.__init__(self)
        self.allowed = set(id(x) for x in allowed)


def _allowed(obj):
    return _heap and id(obj) in getattr(_heap[-1], 'allowed', ())


def write_cell(kind, obj, key, value):
    if _heap:
        _heap[-1][(kind, id(obj), key if not isinstance(key, Sym)
                   else repr(key))] = (kind, obj, key)
    if kind == 'attr':
        setattr(obj, key, value)
    else:
        obj[key] = value


def set_attr(obj, name, value):
    write_cell('attr', obj, name, value)


def del_item(obj, key):
    if not _allowed(obj) and _heap and isinstance(obj, (SymMap, Family, dict, list)):
        raise Unsupported('deletion in a generic iteration')
    del obj[key]


def set_item(obj, key, value):
    if getattr(type(obj), '_vf_events', False) or _allowed(obj):
        # reported as an event, or described by an invariant
        obj[key] = value
        return
    if _heap and not isinstance(obj, dict):
        if isinstance(obj, Family) and not isinstance(
                value, (Sym, int, float, str)) and obj[key] is value:
            return          # what is already there
        if isinstance(obj, (SymMap, Family)):
            raise Unsupported('store into a family in a generic iteration')
    write_cell('item', obj, key, value)


CONTAINERS = [list, dict, set]       # and those of mix


def mutate(obj, method, local, *a, **k):
    """obj.method(...), a method that changes a container.  In a generic
    iteration only containers made by it (or contract objects) can be."""
    if _heap and isinstance(obj, (Family, SymMap) + tuple(CONTAINERS)) and \
            not _allowed(obj) and not (
            local and sys.getrefcount(obj) <= 4):
        raise Unsupported('%s on a container in a generic iteration' % method)
    return getattr(obj, method)(*a, **k)


class ObjFamily(object):
    """Objects indexed by a symbolic key; an attribute written for a generic
    key is unknown for every key."""

    def __init__(self):
        self.memo, self.dirty = {}, set()

    def write(self, obj, name, value):
        if _heap:
            self.dirty.add(name)
            _heap[-1][('family', id(self), name)] = ('family', self, name)
        setattr(obj, name, value)

    def poison(self, name):
        for o in self.memo.values():
            setattr(o, name, Poison())


def _poison(cells):
    for kind, obj, key in cells.values():
        try:
            if kind == 'family':
                obj.poison(key)
            elif kind == 'attr':
                setattr(obj, key, Poison())
            else:
                obj[key] = Poison()
        except (TypeError, AttributeError, IndexError):
            pass


def _explore_local(fn, kvar, assume):
    """_explore_once, with every heap cell written by an iteration unknown at
    its start (fixpoint over the set of written cells) and afterwards."""
    known = {}
    for _ in range(4):
        frame = {}
        _heap.append(frame)
        try:
            res = _explore_once(fn, kvar, assume, known)
        finally:
            _heap.pop()
        new = [c for c in frame if c not in known]
        known.update(frame)
        if not new:
            break
    else:
        raise Unsupported('written cells of a loop do not stabilise')
    _poison(known)
    if _heap:
        _heap[-1].update(known)
    return res


def _explore_once(fn, kvar, assume, known):
    """All feasible paths of fn() for a generic element.  Yields (cond, value)
    with cond the conjunction of the branch conditions taken."""
    p = cur()
    base_pc, base_set = list(p.pc), set(p.pcset)
    outer = (p.prefix, p.taken, p.pending)
    counters = dict(p.counter)
    results, work = [], [[]]
    sc = scope()
    sc.append(kvar)
    maxc = dict(counters)
    try:
        n = 0
        while work:
            n += 1
            if n > 200:
                raise sym.TooManyPaths('generic element')
            prefix = work.pop()
            p.pc, p.pcset = list(base_pc), set(base_set)
            for a in assume:
                p.add(a)
            mark = len(p.pc)
            p.prefix, p.taken, p.pending = prefix, [], []
            p.counter = dict(maxc)
            _poison(known)
            try:
                v = fn()
                ok = True
            except sym.PathEnd:
                ok = False
            work.extend(p.pending)
            for key, c in p.counter.items():
                maxc[key] = max(maxc.get(key, 0), c)
            if ok:
                extra = p.pc[mark:]
                results.append((z3.simplify(z3.And(*extra)) if extra
                                else TRUE, v))
    finally:
        sc.pop()
        p.prefix, p.taken, p.pending = outer
        p.pc, p.pcset = base_pc, base_set
        p.counter = maxc
    return results


max = builtins.max


def merge(results):
    """One value out of per-path scalar values."""
    vals = [v for _, v in results]
    if len(results) == 1:
        return vals[0]
    if isinstance(vals[0], (SymInt, SymReal, SymBool)) and all(
            type(v) is type(vals[0]) and v.t.eq(vals[0].t) for v in vals):
        return vals[0]
    if all(isinstance(v, (SymInt, int)) and not isinstance(v, bool)
           for v in vals):
        t = int_term(vals[-1])
        for c, v in reversed(results[:-1]):
            t = z3.If(c, int_term(v), t)
        return SymInt(t)
    if all(isinstance(v, (SymBool, bool)) for v in vals):
        t = sym.bool_term(vals[-1])
        for c, v in reversed(results[:-1]):
            t = z3.If(c, sym.bool_term(v), t)
        return SymBool(t)
    if any(isinstance(v, sym.SymCell) or sym.nonfinite(v) and math.isnan(v)
           for v in vals) and all(isinstance(v, (Sym,) + sym.NUM)
                                  for v in vals):
        parts = [(c, (v.nan, v.t) if isinstance(v, sym.SymCell) else
                  (z3.BoolVal(True), z3.RealVal(0)) if sym.nonfinite(v)
                  and math.isnan(v) else (z3.BoolVal(False), real_term(v)))
                 for c, v in results]
        n, t = parts[-1][1]
        for c, (nv, tv) in reversed(parts[:-1]):
            n, t = z3.If(c, nv, n), z3.If(c, tv, t)
        return sym.SymCell(z3.simplify(n), t)
    num = (SymReal, SymInt, SymExt, int, float)
    if all(isinstance(v, num) or isinstance(v, sym.NUM) for v in vals):
        if any(isinstance(v, SymExt) or sym.nonfinite(v) for v in vals):
            f, t = _ext(vals[-1])
            for c, v in reversed(results[:-1]):
                fv, tv = _ext(v)
                f, t = z3.If(c, fv, f), z3.If(c, tv, t)
            return SymExt(z3.simplify(f), t)
        t = real_term(vals[-1])
        for c, v in reversed(results[:-1]):
            t = z3.If(c, real_term(v), t)
        return SymReal(t)
    first = vals[0]
    if all(v is first for v in vals):
        return first
    if all(isinstance(v, tuple) and len(v) == len(first) for v in vals):
        out = [merge([(c, v[i]) for c, v in results])
               for i in range(len(first))]
        return type(first)(*out) if hasattr(first, '_fields') else tuple(out)
    if all(isinstance(v, dict) for v in vals) and all(
            list(v) == list(first) for v in vals):
        return dict((k, merge([(c, v[k]) for c, v in results]))
                    for k in first)
    if all(v == first for v in vals):
        return first
    raise Unsupported('cannot merge %r' % [type(v).__name__ for v in vals])


def _ext(v):
    if isinstance(v, SymExt):
        return v.fin, v.t
    if sym.nonfinite(v):
        if v == -math.inf:
            return z3.BoolVal(False), z3.RealVal(0)
        raise Unsupported('+inf/nan in a family')
    return TRUE, real_term(v)


def gen_map(part, body):
    """Map body (returning a list of 0 or 1 outputs) over a Dom part."""
    k = z3.Int(cur().fresh('k'))
    g, v = part.at(k)
    res = _explore_local(lambda: body(v), k, member_ctx(part.dom, k) + [g])
    kept = [(c, out[0]) for c, out in res if out]
    if any(len(out) > 1 for _, out in res):
        raise Unsupported('several outputs per element')
    if not kept:
        return []
    if len(kept) == len(res):
        guard = g
    else:
        guard = z3.And(g, z3.Or(*[c for c, _ in kept]))
    try:
        return [Dom(part.dom, k, z3.simplify(guard), merge(kept))]
    except Unsupported:
        return [Dom(part.dom, k, z3.simplify(z3.And(g, c)), v)
                for c, v in kept]


def fam_flatmap(fam, body):
    parts = []
    for p in as_family(fam).parts:
        if isinstance(p, One):
            parts.extend(One(x) for x in body(p.value))
        else:
            parts.extend(singleton(q) for q in gen_map(p, body))
    return Family(parts, getattr(fam, 'token', None))


def only_element(p):
    """The only candidate of a filtered part, if there is just one."""
    if scope() or z3.is_true(p.guard):
        return
    for e in sym.walk([p.guard]):
        if not (z3.is_eq(e) and z3.is_int(e.arg(0))):
            continue
        k = p.kvar
        t = z3.simplify(z3.substitute(e.arg(0) - e.arg(1), (k, z3.IntVal(0))))
        for a, t in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0)),
                     (k, -t), (k, t)):
            if not a.eq(k) or any(x.eq(k) for x in sym.walk([t])):
                continue
            if known(z3.Implies(z3.And(p.dom.member(p.kvar), p.guard),
                                p.kvar == t)):
                return t


def singleton(p):
    """A filtered part that has exactly one element, as that element."""
    t = only_element(p)
    if t is not None:
        g, v = p.at(t)
        if known(z3.And(p.dom.member(t), g)):
            return One(v)
    return p


def fam_map(fam, f):
    r = fam_flatmap(fam, lambda x: [f(x)])
    return NpFamily(r.parts, r.token) if isinstance(fam, NpFamily) else r


def fold_sum(parts, zero=0):
    """The sum of a family of reals."""
    total = zero
    for p in parts:
        if isinstance(p, One):
            total = total + p.value
        else:
            total = total + sum_term(p)
    return total


def sum_term(p):
    if isinstance(p.value, SymInt) and z3.is_app_of(
            p.value.t, z3.Z3_OP_ITE) and z3.is_int_value(p.value.t.arg(1)) \
            and z3.is_int_value(p.value.t.arg(2)):
        c, x, y = p.value.t.children()
        q = Dom(p.dom, p.kvar, z3.simplify(z3.And(
            p.guard, c if y.as_long() == 0 else z3.Not(c))),
            SymInt(x if y.as_long() == 0 else y))
        if 0 in (x.as_long(), y.as_long()) and only_element(q) is not None:
            p = q
    t = only_element(p)
    if t is not None:
        g, v = p.at(t)
        c = z3.And(p.dom.member(t), g)
        if isinstance(v, (SymInt, int)):
            return SymInt(z3.If(c, int_term(v), 0))
        if not isinstance(v, SymExt) and not sym.nonfinite(v):
            return SymReal(z3.If(c, real_term(v), 0))
    v = p.value
    isint = isinstance(v, (SymInt, int)) and not isinstance(v, bool)
    if isinstance(v, SymExt) or sym.nonfinite(v):
        f, t = _ext(v)
        # the sum is -inf if any guarded element is -inf
        allfin = forall_term(p.dom, p.kvar, z3.And(p.guard), f)
        s = _sum(p.dom, p.kvar, z3.And(p.guard, f), t)
        return SymExt(allfin, s)
    if z3.is_true(z3.simplify(p.guard)) and not any(
            x.eq(p.kvar) for x in sym.walk([int_term(v) if isint
                                            else real_term(v)])):
        if isint:
            return SymInt(int_term(v) * p.dom.card())
        return SymReal(real_term(v) * z3.ToReal(p.dom.card()))
    if isint:
        return SymInt(_sum(p.dom, p.kvar, p.guard,
                           z3.ToReal(int_term(v)), True))
    return SymReal(_sum(p.dom, p.kvar, p.guard, real_term(v)))


def _free_bound(exprs):
    """The scope variables occurring in exprs."""
    ids = {}
    for v in scope():
        ids[v.get_id()] = v
    out = []
    for e in sym.walk(exprs):
        if e.get_id() in ids:
            out.append(ids[e.get_id()])
    order = [v.get_id() for v in scope()]
    return sorted(out, key=lambda v: order.index(v.get_id()))


def _dom_exprs(d):
    return list(d.params) + [x for x in (d.lo, d.hi) if x is not None]


def _int_params(exprs, kvar):
    """Maximal integer subterms free of kvar, in order of first occurrence."""
    out, memo = [], {}

    def closed(e):
        i = e.get_id()
        if i not in memo:
            memo[i] = not e.eq(kvar) and not z3.is_var(e) and (
                not z3.is_quantifier(e)) and all(
                    closed(c) for c in e.children())
        return memo[i]
    seen = set()
    stack = list(reversed(exprs))
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e) or z3.is_int_value(e):
            continue
        if z3.is_app(e) and e.sort() == z3.IntSort() and closed(e):
            out.append(e)
        else:
            stack.extend(reversed(e.children()))
    return out


_KV = z3.Int('#k')


def _sum(dom, kvar, guard, body, isint=False):
    """sum_{k in dom, guard} body, as an application of a function of the
    integer constants it mentions (so that equal arguments give equal sums)."""
    p = cur()
    guard, body = z3.simplify(guard), z3.simplify(body)
    args = _int_params([body, guard] + _dom_exprs(dom), kvar)
    formal = [z3.Int('#p%d' % i) for i in range(len(args))]
    pairs = list(zip(args, formal)) + [(kvar, _KV)]
    g, b, d = (z3.substitute(guard, *pairs), z3.substitute(body, *pairs),
               dom.subst(pairs))
    key = ('sum', isint, d.key(), g.sexpr(), b.sexpr())
    rec = p.sums.get(key)
    if rec is None:
        name = p.fresh('SUM')
        rec = dict(kind='sum', name=name, params=formal, dom=d, kvar=_KV,
                   guard=g, body=b, isint=isint)
        so = z3.IntSort() if isint else z3.RealSort()
        rec['fn'] = z3.Function(name, *([z3.IntSort()] * len(formal) + [so]))
        p.sums[key] = rec
        p.sums[name] = rec
    term = rec['fn'](*args)
    sum_facts(term, dom, kvar, guard, body)
    return term


def sum_facts(t, dom, kvar, guard, b):
    """Sign of a sum from the sign of its generic term (lemma L0: a finite
    sum of nonnegative terms is nonnegative, and positive if one is
    positive; it is at least each of its terms, and the sum of two of them; a sum of terms at most 1
    is at most the number of terms)."""
    p = cur()
    ident = t.get_id()
    if t.sort() == z3.IntSort():
        t = z3.ToReal(t)
    memo = p.__dict__.setdefault('sumsigns', {})
    hit = memo.get(ident)
    plain = z3.is_true(guard)
    if hit is None:
        sign = None
        ctx = member_ctx(dom, kvar) + [guard]
        if p.check(*(ctx + [b <= 0])) == z3.unsat:
            sign = 'pos'
        elif p.check(*(ctx + [b < 0])) == z3.unsat:
            sign = 'nonneg'
        elif p.check(*(ctx + [b > 0])) == z3.unsat:
            sign = 'nonpos'
        le1 = plain and sign in ('pos', 'nonneg') and p.check(
            *(ctx + [b > 1])) == z3.unsat
        # the sign holds wherever the present path condition holds; a term
        # mentioning bound variables is looked at afresh every time
        if not scope():
            memo[ident] = (sign, le1, t)
    else:
        sign, le1, _ = hit
    card = dom.card()
    p.add(card >= 0)
    if le1:
        p.add(t <= z3.ToReal(card))
    p.add(z3.Implies(card <= 0, t == 0))
    if sign in ('pos', 'nonneg') and not scope():
        known_ms = p.__dict__.setdefault('members', {}).get(dom.name, ())
        for m in known_ms:
            pr = (kvar, m)
            p.add(z3.Implies(z3.And(dom.member(m), z3.substitute(guard, pr)),
                             t >= z3.substitute(b, pr)))
        # two different terms
        few = known_ms[:3]
        for i in range(len(few)):
            for j in range(i):
                pi, pj = (kvar, few[i]), (kvar, few[j])
                p.add(z3.Implies(z3.And(
                    few[i] != few[j], dom.member(few[i]), dom.member(few[j]),
                    z3.substitute(guard, pi), z3.substitute(guard, pj)),
                    t >= z3.substitute(b, pi) + z3.substitute(b, pj)))
    if sign == 'pos' and not plain and not scope() and \
            z3.is_rational_value(z3.simplify(z3.ToReal(b) if b.is_int()
                                             else b)):
        # a nonempty count has a member
        w = z3.Int('member_of_%d' % ident)
        p.add(z3.Implies(t > 0, z3.And(
            dom.member(w), z3.substitute(guard, (kvar, w)))))
    if sign == 'pos':
        p.add(t >= 0)
        if plain:
            p.add(z3.Implies(card > 0, t > 0))
        else:
            p.add(z3.Implies(exists_term(dom, kvar, guard, TRUE), t > 0))
    elif sign == 'nonneg':
        p.add(t >= 0)
    elif sign == 'nonpos':
        p.add(t <= 0)


def forall_term(dom, kvar, guard, body):
    """A z3 Bool meaning: body holds for all guarded members."""
    if z3.is_true(z3.simplify(body)) or z3.is_false(z3.simplify(guard)):
        return TRUE
    k = z3.Int('q')
    pairs = [(kvar, k)]
    ante = [dom.member(k), z3.substitute(guard, *pairs)]
    return z3.ForAll([k], z3.Implies(
        z3.And(*(ante + sym.member_axioms(sym.ground(ante)))),
        z3.substitute(body, *pairs)))


def exists_term(dom, kvar, guard, body):
    return z3.Not(forall_term(dom, kvar, guard, z3.Not(body)))


def fold_max(fam):
    """max of a family: a fresh symbol with its defining facts."""
    fam = as_family(fam)
    if not fam.parts:
        raise ValueError('max() arg is an empty sequence')
    if fam.explicit():
        return builtins.max(fam.values())
    p = cur()
    if not cur().decide((fam.length() > 0).t if isinstance(
            fam.length(), Sym) else z3.BoolVal(True)):
        raise ValueError('max() arg is an empty sequence')
    isint = all(isinstance(q.value, (SymInt, int)) for q in fam.parts)
    anyext = any(isinstance(q.value, SymExt) or sym.nonfinite(q.value)
                 for q in fam.parts)
    key = ('max', tuple(
        ('one', str(q.value)) if isinstance(q, One) else
        (q.dom.key(), z3.substitute(q.guard, (q.kvar, z3.Int('#k'))).sexpr(),
         str(subst(q.value, [(q.kvar, z3.Int('#k'))])))
        for q in fam.parts))
    hit = p.sums.get(key)
    if hit is not None:
        return hit
    if anyext:
        fins = []
        for q in fam.parts:
            f, t = _ext(q.value)
            if isinstance(q, One):
                fins.append(f)
            else:
                fins.append(exists_term(q.dom, q.kvar, q.guard, f))
        fin = z3.simplify(z3.Or(*fins))
        m = fresh('MAX', z3.RealSort())
        val = SymExt(fin, m)
        _max_facts(fam, m, fin)
    else:
        m = fresh('MAX', z3.IntSort() if isint else z3.RealSort())
        val = SymInt(m) if isint else SymReal(m)
        _max_facts(fam, m, TRUE)
    p.sums[key] = val
    return val


def _max_facts(fam, m, fin):
    p = cur()
    isint = m.sort() == z3.IntSort()
    alts = []
    for q in fam.parts:
        f, t = _ext(q.value)
        if isint:
            t = int_term(q.value)
        if isinstance(q, One):
            p.facts.append(z3.Implies(z3.And(fin, f), m >= t))
            alts.append(z3.And(f, m == t))
        else:
            k = z3.Int('q')
            pairs = [(q.kvar, k)]
            body = z3.Implies(
                z3.And(q.dom.member(k), z3.substitute(q.guard, *pairs),
                       z3.substitute(f, *pairs)),
                m >= z3.substitute(t, *pairs))
            p.facts.append(z3.Implies(fin, z3.ForAll([k], body)))
            w = fresh('argmax', z3.IntSort())
            pairs = [(q.kvar, w)]
            alts.append(z3.And(
                q.dom.member(w), z3.substitute(q.guard, *pairs),
                z3.substitute(f, *pairs), m == z3.substitute(t, *pairs)))
    p.facts.append(z3.Implies(fin, z3.Or(*alts)))


# --------------------------------------------------------------------------
# Maps.

DEL = object()


class SymMap(object):
    """A finite map from ints of unknown size: a base domain with a value
    function, overridden by a log of writes with pairwise distinct keys."""

    def __init__(self, dom, valuef, token=None):
        self.dom, self.valuef = dom, valuef
        self.over = []          # [key term, value or DEL, base_has]
        self.token = token or dom.name
        self.writes = 0
        self.scopelen = len(scope())

    def clone(self):
        m = SymMap.__new__(type(self))
        m.__dict__.update(self.__dict__)
        m.dom, m.valuef, m.over = self.dom, self.valuef, [
            list(o) for o in self.over]
        m.token, m.writes, m.scopelen = self.token, self.writes, self.scopelen
        return m

    __copy__ = clone
    copy = clone

    def __deepcopy__(self, memo):
        return self.clone()

    def _base_has(self, k):
        r = cur().decide(self.dom.member(k))
        if r:
            for c in member_ctx(self.dom, k):
                cur().add(c)
            cur().add(self.dom.card() >= 1)
            note_member(self.dom, k)
        return r

    def _find(self, k):
        for i, (key, _, _) in enumerate(self.over):
            if key.eq(k) or cur().decide(key == k):
                return i
        return None

    def has(self, key):
        if not isinstance(key, (SymInt, int)) or isinstance(key, bool):
            if isinstance(key, (SymReal, float)):
                raise Unsupported('real key')
            if key is None or isinstance(key, str):
                return False
            try:
                k = int_term(key)
            except Unsupported:
                return False
        k = int_term(key)
        i = self._find(k)
        if i is not None:
            return self.over[i][1] is not DEL
        return self._base_has(k)

    def __contains__(self, key):
        return self.has(key)

    def has_key(self, key):
        return self.has(key)

    def __getitem__(self, key):
        k = int_term(key)
        i = self._find(k)
        if i is not None:
            v = self.over[i][1]
            if v is DEL:
                raise KeyError(key)
            return v
        if not self.has(key):
            raise KeyError(key)
        return self.valuef(SymInt(k))

    def get(self, key, default=None):
        return self[key] if self.has(key) else default

    def _write(self, key, v):
        if len(scope()) != self.scopelen:
            raise Unsupported('map write inside a generic iteration')
        self.writes += 1
        k = z3.simplify(int_term(key))
        i = self._find(k)
        if i is not None:
            self.over[i][1] = v
            return
        self.over.append([k, v, self._base_has(k)])

    def __setitem__(self, key, v):
        self._write(key, v)

    def setdefault(self, key, d=None):
        if not self.has(key):
            self._write(key, d)
        return self[key]

    def __delitem__(self, key):
        if not self.has(key):
            raise KeyError(key)
        self._write(key, DEL)

    def pop(self, key, *default):
        if not self.has(key):
            if default:
                return default[0]
            raise KeyError(key)
        v = self[key]
        self._write(key, DEL)
        return v

    def update(self, o):
        if isinstance(o, SymMap) or getattr(
                o, 'unbounded', lambda: False)() or (
                    isinstance(o, Family) and not o.explicit()):
            widen(self)
            self.mix.update(o)
            return
        for k in o:
            self[k] = o[k]

    def _items(self, f):
        """Family of f(key, value) over the current entries."""
        k = z3.Int(cur().fresh('k'))
        guard = z3.And(*[k != o[0] for o in self.over]) if self.over else TRUE
        sc = scope()
        sc.append(k)
        try:
            v = f(SymInt(k), self.valuef(SymInt(k)))
        finally:
            sc.pop()
        parts = [Dom(self.dom, k, guard, v)]
        for key, val, _ in self.over:
            if val is not DEL:
                parts.append(One(f(SymInt(key), val)))
        return Family(parts, self.token)

    def keys(self):
        return self._items(lambda k, v: k)

    def values(self):
        return self._items(lambda k, v: v)

    def items(self):
        return self._items(lambda k, v: (k, v))

    iterkeys, itervalues, iteritems = keys, values, items

    def __iter__(self):
        raise Unsupported('native iteration over an unbounded map')

    def length(self):
        n = SymInt(self.dom.card())
        for _, v, base in self.over:
            if base:
                n = n - 1
            if v is not DEL:
                n = n + 1
        return n

    def __len__(self):
        n = z3.simplify(self.length().t)
        if z3.is_int_value(n):
            return n.as_long()
        raise Unsupported('native len() of an unbounded map')

    def __bool__(self):
        return bool(self.length() > 0)

    def __eq__(self, o):
        if o is self:
            return True
        from .mix import maps_equal
        return maps_equal(self, o)

    __hash__ = None

    def fold(self, f):
        """sum of f(key, value) over the current entries, expressed through
        the fold over the base domain and point corrections."""
        k = z3.Int(cur().fresh('k'))
        total = fold_sum(gen_map(
            Dom(self.dom, k, TRUE, SymInt(k)),
            lambda i: [f(i, self.valuef(i))]))
        for key, val, base in self.over:
            key = SymInt(key)
            if base:
                total = total - f(key, self.valuef(key))
            if val is not DEL:
                total = total + f(key, val)
        return total

    def __repr__(self):
        return '<map %s +%d>' % (self.dom.name, len(self.over))


class SubMap(SymMap):
    """The entries of a map whose key satisfies a condition."""

    def __init__(self, dom, guardf, valuef, pairs=()):
        SymMap.__init__(self, dom, valuef)
        self.guardf, self.pairs = guardf, tuple(pairs)
        inner = valuef
        self.valuef = lambda k: subst(inner(k), list(self.pairs))

    def guard(self, k):
        return z3.substitute(sym.bool_term(self.guardf(SymInt(k))),
                             *self.pairs) if self.pairs else \
            sym.bool_term(self.guardf(SymInt(k)))

    def _base_has(self, k):
        return cur().decide(z3.And(self.dom.member(k), self.guard(k))) and \
            SymMap._base_has(self, k)

    def _items(self, f):
        fam = SymMap._items(self, f)
        p = fam.parts[0]
        g = z3.And(p.guard, self.guard(p.kvar))
        return Family([Dom(p.dom, p.kvar, g, p.value)] + fam.parts[1:],
                      fam.token)

    def length(self):
        n = fold_sum([Dom(self.dom, *self._one())])
        for _, v, base in self.over:
            if base:
                n = n - 1
            if v is not DEL:
                n = n + 1
        return n

    def _one(self):
        k = z3.Int(cur().fresh('k'))
        return k, self.guard(k), 1

    def fold(self, f):
        raise Unsupported('fold over a submap')

    def _vf_subst(self, pairs):
        m = SubMap(self.dom, self.guardf, self.valuef,
                   self.pairs + tuple(pairs))
        if self.over:
            raise Unsupported('a written submap')
        return m


class WideMap(SymMap):
    """A map that was joined with another one."""
    over = ('joined',)

    def _no(self):
        raise Unsupported('a joined map')
    dom = valuef = property(_no)

    def clone(self):
        m = SymMap.__new__(WideMap)
        m.__dict__.update(self.__dict__)
        m.mix = self.mix.copy()
        return m

    __copy__ = copy = clone

    def has(self, key):
        return key in self.mix

    def __contains__(self, key):
        return key in self.mix

    def __getitem__(self, key):
        return self.mix[key]

    def __setitem__(self, key, v):
        self.mix[key] = v

    def __delitem__(self, key):
        del self.mix[key]

    def get(self, key, default=None):
        return self.mix.get(key, default)

    def setdefault(self, key, d=None):
        return self.mix.setdefault(key, d)

    def pop(self, key, *default):
        return self.mix.pop(key, *default)

    def update(self, o):
        self.mix.update(o)

    def keys(self):
        return self.mix.keys()

    def values(self):
        return self.mix.values()

    def items(self):
        return self.mix.items()

    iterkeys, itervalues, iteritems = keys, values, items

    def length(self):
        return self.mix.length()

    def fold(self, f):
        raise Unsupported('fold over a joined map')

    def _vf_subst(self, pairs):
        raise Unsupported('a joined map')


def widen(m):
    from .mix import MixDict
    if type(m) not in (SymMap, WideMap):
        raise Unsupported('a map joined with another one')
    if type(m) is SymMap:
        mix = MixDict()
        mix.update(m)
        d = m.__dict__
        d.pop('dom', None), d.pop('valuef', None), d.pop('over', None)
        m.__class__ = WideMap
        m.mix = mix


class IndexMap(SymMap):
    """value -> number of entries of a map holding it, for the values that
    occur: every listed value occurs at least once, no other occurs."""

    def _base_has(self, k):
        r = SymMap._base_has(self, k)
        c = int_term(self.valuef(SymInt(k)))
        cur().add(c >= 1 if r else c == 0)
        return r


def index_map(data):
    data = data.clone()
    dom = Domain(cur().fresh('index_' + data.dom.name))

    def count(j):
        return data.fold(lambda k, v: merge([(v.t == int_term(j), 1),
                                             (v.t != int_term(j), 0)]))
    q = z3.Int('#q')
    p = cur()
    m = IndexMap(dom, count)
    scope().append(q)
    try:
        c = int_term(count(SymInt(q)))
    finally:
        scope().pop()
    p.facts.append(z3.ForAll([q], z3.And(
        z3.Implies(dom.member(q), c >= 1),
        z3.Implies(z3.Not(dom.member(q)), c == 0))))
    if type(data) is SymMap and not data.over:
        # the value of every entry is listed
        kf = z3.Int('#x_%s' % data.dom.name)
        scope().append(kf)
        try:
            v = data.valuef(SymInt(kf))
        finally:
            scope().pop()
        if isinstance(v, SymInt):
            p.__dict__.setdefault('domfacts', {}).setdefault(
                data.dom.key(), []).append((kf, [dom.member(v.t)]))
    return m


def rng_family(n):
    """range(n) for a symbolic n."""
    k = z3.Int(cur().fresh('k'))
    d = Domain('range', (), z3.IntVal(0), int_term(n))
    return Family([Dom(d, k, TRUE, SymInt(k))], 'range')


def repeat(xs, n):
    """xs * n for a list of one element and a symbolic n."""
    if len(xs) != 1 or scope():
        raise Unsupported('a list times a symbolic number')
    f = rng_family(n if cur().decide(int_term(n) >= 0) else 0)
    f.parts[0].value = xs[0]
    f.token = None
    return f
