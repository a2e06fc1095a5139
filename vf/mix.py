"""Dicts and sets whose keys may be symbolic or ranged over by a family.

A MixDict is a plain dict until the first symbolic key or the first update
from an unbounded mapping; from then on it is a log of layers, a later layer
overriding an earlier one.  A MixSet likewise.
"""
import builtins

from . import deps  # noqa: F401
import z3

from . import sym
from .sym import Sym, SymInt, SymReal, Unsupported, cur, int_term
from . import coll
from .coll import Dom, Family, One, SymMap


def is_int(x):
    return isinstance(x, (int, SymInt)) and not isinstance(x, bool)


def same_key(a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        raise Unsupported('real key')
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not (is_int(a) and is_int(b)):
            return False
        x, y = int_term(a), int_term(b)
        return x.eq(y) or cur().decide(x == y)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(
            same_key(x, y) for x, y in builtins.zip(a, b))
    return a == b


def symbolic(k):
    return isinstance(k, Sym) or (
        isinstance(k, tuple) and any(symbolic(x) for x in k))


def offset(p, key):
    """The key of the part as its own index plus an offset."""
    if not isinstance(key, SymInt):
        return None
    if key.t.eq(p.kvar):
        return z3.IntVal(0)
    d = z3.simplify(key.t - p.kvar)
    if any(x.eq(p.kvar) for x in sym.walk([d])):
        return None
    return d


def own(p, key):
    """Are the keys of the part distinct?"""
    return offset(p, key) is not None


def part_index(p, key, k):
    """Term: the index of the key k in the part."""
    d = offset(p, key)
    if d is None:
        raise Unsupported('membership among computed keys')
    t = int_term(k)
    if z3.is_int_value(d) and d.as_long() == 0:
        return t
    return z3.simplify(t - d)


def part_has(p, key, k):
    """Term: k is a key of the Dom part."""
    if isinstance(key, SymInt) and offset(p, key) is None:
        return coll.exists_term(p.dom, p.kvar, p.guard, key.t == int_term(k))
    t = part_index(p, key, k)
    return z3.And(p.dom.member(t), z3.substitute(p.guard, (p.kvar, t)))


class Layers(object):
    """Log of ('k', key, value) and ('f', Dom part with (key, value))."""

    @staticmethod
    def of(fam):
        out = []
        for p in fam.parts:
            if isinstance(p, One):
                out.append(['k', p.value[0], p.value[1]])
            else:
                out.append(['f', p])
        return out


class MixDict(builtins.dict):
    _log = None

    # ---- representation
    @classmethod
    def from_fam(cls, fam):
        d = cls()
        d._promote()
        d._add_family(fam)
        return d

    def _promote(self):
        if self._log is None:
            self._log = [['k', k, v] for k, v in builtins.dict.items(self)]
            builtins.dict.clear(self)

    def _add_family(self, fam):
        for l in Layers.of(fam):
            if l[0] == 'k':
                self[l[1]] = l[2]
            elif z3.is_false(z3.simplify(l[1].guard)):
                pass
            else:
                self._log.append(l)

    def _lookup(self, key):
        for i in range(len(self._log) - 1, -1, -1):
            l = self._log[i]
            if l[0] == 'k':
                if same_key(l[1], key):
                    return i, l[2]
            elif is_int(key):
                p = l[1]
                kk, _ = p.value
                if cur().decide(part_has(p, kk, key)):
                    t = part_index(p, kk, key)
                    if t.eq(p.kvar):
                        return i, p.value[1]
                    return i, p.at(t)[1][1]
        return None

    def _log_for(self, key):
        if self._log is None and symbolic(key):
            self._promote()
        return self._log is not None

    # ---- dict
    def __getitem__(self, key):
        if not self._log_for(key):
            return builtins.dict.__getitem__(self, key)
        r = self._lookup(key)
        if r is None:
            raise KeyError(key)
        return r[1]

    def __contains__(self, key):
        if not self._log_for(key):
            return builtins.dict.__contains__(self, key)
        return self._lookup(key) is not None

    has_key = __contains__

    def get(self, key, d=None):
        if not self._log_for(key):
            return builtins.dict.get(self, key, d)
        r = self._lookup(key)
        return d if r is None else r[1]

    def __setitem__(self, key, v):
        if not self._log_for(key):
            return builtins.dict.__setitem__(self, key, v)
        r = self._lookup(key)
        if r is not None and self._log[r[0]][0] == 'k':
            self._log[r[0]][2] = v
        else:
            self._log.append(['k', key, v])

    def __delitem__(self, key):
        if not self._log_for(key):
            return builtins.dict.__delitem__(self, key)
        r = self._lookup(key)
        if r is None:
            raise KeyError(key)
        if self._log[r[0]][0] == 'f':
            p = self._log[r[0]][1]
            self._log[r[0]] = ['f', Dom(
                p.dom, p.kvar, z3.And(p.guard, p.kvar != int_term(key)),
                p.value)]
        else:
            del self._log[r[0]]
        if key in self:     # an overridden entry
            del self[key]

    def pop(self, key, *d):
        if not self._log_for(key):
            return builtins.dict.pop(self, key, *d)
        r = self._lookup(key)
        if r is None:
            if d:
                return d[0]
            raise KeyError(key)
        del self[key]
        return r[1]

    def setdefault(self, key, d=None):
        if key not in self:
            self[key] = d
        return self[key]

    def update(self, *a, **k):
        for o in a:
            if isinstance(o, MixDict) and o._log is not None:
                self._promote()
                self._add_family(o._family())
            elif isinstance(o, SymMap):
                self._promote()
                self._add_family(o.items())
            elif isinstance(o, builtins.dict):
                for x, y in builtins.dict.items(o):
                    self[x] = y
            elif hasattr(o, 'keys'):
                for x in o.keys():
                    self[x] = o[x]
            elif isinstance(o, Family) and not o.explicit():
                self._promote()
                self._add_family(o)
            else:
                for x, y in o:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def _family(self):
        """The entries, without the overridden ones."""
        parts = []
        for i, l in enumerate(self._log):
            later = self._log[i + 1:]
            if l[0] == 'k':
                hid = False
                for m in later:
                    if m[0] == 'f' and is_int(l[1]) and cur().decide(
                            part_has(m[1], m[1].value[0], l[1])):
                        hid = True
                if not hid:
                    parts.append(One((l[1], l[2])))
            else:
                p = l[1]
                g = [p.guard]
                for m in later:
                    if m[0] == 'f':
                        g.append(z3.Not(part_has(m[1], m[1].value[0],
                                                 p.value[0])))
                    elif is_int(m[1]):
                        g.append(int_term(p.value[0]) != int_term(m[1]))
                parts.append(Dom(p.dom, p.kvar, z3.simplify(z3.And(*g))
                                 if len(g) > 1 else p.guard, p.value))
        return Family(parts)

    def _view(self, which):
        if self._log is None:
            raise AssertionError
        f = self._family()
        out = f if which == 'items' else coll.fam_map(
            f, lambda t: t[0 if which == 'keys' else 1])
        return out.values() if out.explicit() else out

    def keys(self):
        if self._log is None:
            return builtins.list(builtins.dict.keys(self))
        return self._view('keys')

    def values(self):
        if self._log is None:
            return builtins.list(builtins.dict.values(self))
        return self._view('values')

    def items(self):
        if self._log is None:
            return builtins.list(builtins.dict.items(self))
        return self._view('items')

    iterkeys, itervalues, iteritems = keys, values, items

    def __iter__(self):
        if self._log is None:
            return builtins.dict.__iter__(self)
        return iter(self.keys())

    def unbounded(self):
        return self._log is not None and any(l[0] == 'f' for l in self._log)

    def length(self):
        if self._log is None:
            return builtins.dict.__len__(self)
        return self._family().length()

    def __len__(self):
        n = self.length()
        if isinstance(n, Sym):
            t = z3.simplify(n.t)
            if not z3.is_int_value(t):
                raise Unsupported('native len() of an unbounded dict')
            return t.as_long()
        return n

    def __bool__(self):
        n = self.length()
        return bool(n > 0) if isinstance(n, Sym) else n > 0

    def copy(self):
        d = MixDict()
        if self._log is None:
            builtins.dict.update(d, self)
        else:
            d._log = [builtins.list(l) for l in self._log]
        return d

    __copy__ = copy

    def clear(self):
        builtins.dict.clear(self)
        self._log = None

    def __eq__(self, o):
        if self is o:
            return True
        if self.unbounded() or isinstance(o, SymMap):
            return maps_equal(self, o)
        if not isinstance(o, builtins.dict):
            return False
        if self._log is None and not (isinstance(o, MixDict)
                                      and o._log is not None):
            if len(self) != len(o):
                return False
            return all(k in o and bool(v == o[k])
                       for k, v in builtins.dict.items(self))
        if self.unbounded() or (isinstance(o, MixDict) and o.unbounded()):
            return maps_equal(self, o)
        if len(self) != len(o):
            return False
        return all(k in o and bool(v == o[k]) for k, v in self.items())

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        if self._log is None:
            return builtins.dict.__repr__(self)
        return '<dict %r>' % ([l[1:] if l[0] == 'k' else '...'
                               for l in self._log],)

    def _vf_subst(self, pairs):
        d = MixDict()
        if self._log is None:
            for k, v in builtins.dict.items(self):
                builtins.dict.__setitem__(d, k, coll.subst(v, pairs))
            return d
        d._log = [['k', coll.subst(l[1], pairs), coll.subst(l[2], pairs)]
                  if l[0] == 'k' else ['f', coll.subst_part(l[1], pairs)]
                  for l in self._log]
        return d


def has_term(m, k):
    """Term: k is a key of the map."""
    t = int_term(k)
    if isinstance(m, SymMap):
        f = m.items()
    elif isinstance(m, MixDict) and m._log is not None:
        f = m._family()
    else:
        f = coll.as_family(builtins.list(m.items()))
    out = []
    for p in f.parts:
        if isinstance(p, One):
            if is_int(p.value[0]):
                out.append(int_term(p.value[0]) == t)
        else:
            out.append(part_has(p, p.value[0], k))
    return z3.Or(*out) if out else z3.BoolVal(False)


def maps_equal(a, b):
    """Equality of unbounded maps: at an arbitrary key.  Only a valid
    equality is answered."""
    p = cur()
    k = z3.Int(p.fresh('key'))
    x, y = has_term(a, SymInt(k)), has_term(b, SymInt(k))

    def valid(t):
        s, ss = builtins.list(p.pc), builtins.set(p.pcset)
        p.add(z3.Not(t))
        r = p.check() == z3.unsat
        p.pc, p.pcset = s, ss
        return r
    if not valid(x == y):
        raise Unsupported('== on an unbounded map')
    res = coll._explore_local(
        lambda: sym.bool_term(a[SymInt(k)] == b[SymInt(k)]), k, [x])
    for c, t in res:
        if not valid(z3.Implies(z3.And(x, c), t)):
            raise Unsupported('== on an unbounded map')
    return True


def mkdict(pairs):
    d = MixDict()
    for k, v in pairs:
        d[k] = v
    return d


def dict_of(*a, **k):
    """dict(...)"""
    d = MixDict()
    if a:
        d.update(a[0])
    d.update(**k)
    return d


def numerals(x):
    """The possible values of a choice among numerals."""
    if not is_int(x):
        raise Unsupported('a set of computed values')
    out, todo = [], [z3.simplify(int_term(x))]
    while todo:
        t = todo.pop()
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            todo += [t.arg(2), t.arg(1)]
        elif z3.is_int_value(t):
            if t.as_long() not in out:
                out.append(t.as_long())
        else:
            raise Unsupported('a set of computed values')
    return sorted(out)


class MixSet(object):
    """A set with symbolic or unboundedly many members: its members are the
    values of the parts (repeated members are possible)."""

    def __init__(self, fam):
        self.fam = fam if isinstance(fam, Family) else coll.as_family(fam)

    def __contains__(self, x):
        for p in self.fam.parts:
            if isinstance(p, One):
                if same_key(p.value, x):
                    return True
            elif is_int(x):
                if cur().decide(part_has(p, p.value, x)):
                    return True
        return False

    def __bool__(self):
        return bool(self.fam)

    def _distinct(self):
        """Members without repetition."""
        parts = []
        for p in self.fam.parts:
            if isinstance(p, One):
                if p.value not in MixSet(Family(parts)):
                    parts.append(p)
            else:
                if not own(p, p.value):
                    for n in numerals(p.value):
                        if One(n).value not in MixSet(Family(parts)) and \
                                cur().decide(coll.exists_term(
                                    p.dom, p.kvar, p.guard,
                                    int_term(p.value) == n)):
                            parts.append(One(n))
                    continue
                g = [p.guard]
                for q in parts:
                    if isinstance(q, One):
                        if is_int(q.value):
                            g.append(p.kvar != int_term(q.value))
                    else:
                        g.append(z3.Not(part_has(q, q.value, p.value)))
                parts.append(Dom(p.dom, p.kvar, z3.simplify(z3.And(*g)),
                                 p.value))
        return Family(parts)

    def discard(self, x):
        self.fam = coll.fam_flatmap(
            self.fam, lambda v: [] if same_key(v, x) else [v])

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def length(self):
        return self._distinct().length()

    def __len__(self):
        n = self.length()
        if isinstance(n, Sym):
            t = z3.simplify(n.t)
            if z3.is_int_value(t):
                return t.as_long()
            raise Unsupported('native len() of an unbounded set')
        return n

    def __iter__(self):
        return iter(self._distinct().values())

    def __and__(self, o):
        o = o if isinstance(o, (MixSet, builtins.set)) else mkset(o)

        def keep(x):
            return [x] if x in o else []
        return MixSet(coll.fam_flatmap(self.fam, keep))

    def __rand__(self, o):
        return MixSet(coll.as_family(builtins.list(o))) & self

    def __or__(self, o):
        o = o if isinstance(o, MixSet) else mkset(o)
        b = o.fam if isinstance(o, MixSet) else coll.as_family(
            builtins.list(o))
        return MixSet(Family(self.fam.parts + b.parts))

    __ror__ = __or__

    def __sub__(self, o):
        o = o if isinstance(o, (MixSet, builtins.set)) else mkset(o)
        return MixSet(coll.fam_flatmap(
            self.fam, lambda x: [] if x in o else [x]))

    def __rsub__(self, o):
        return MixSet(coll.as_family(builtins.list(o))) - self

    def intersection(self, *o):
        r = self
        for x in o:
            r = r & x
        return r

    def union(self, *o):
        r = self
        for x in o:
            r = r | x
        return r

    def difference(self, *o):
        r = self
        for x in o:
            r = r - x
        return r

    def isdisjoint(self, o):
        return not bool(self & o)

    def issubset(self, o):
        return not bool(self - o)

    __le__ = issubset

    def issuperset(self, o):
        o = mkset(o)
        if isinstance(o, builtins.set):
            return all(x in self for x in o)
        return o.issubset(self)

    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (MixSet, builtins.set)):
            return False
        return self.issubset(o) and self.issuperset(o)

    def __ne__(self, o):
        return not self == o

    def add(self, x):
        self.fam = Family(self.fam.parts + [One(x)])

    def update(self, *o):
        for x in o:
            self.fam = (self | x).fam

    def copy(self):
        return MixSet(self.fam)

    __hash__ = None

    def _vf_subst(self, pairs):
        return MixSet(coll.subst(self.fam, pairs))

    def __repr__(self):
        return '<set %r>' % (self.fam,)


coll.CONTAINERS.append(MixSet)


def mkset(x=()):
    if isinstance(x, MixSet):
        return MixSet(x.fam)
    if isinstance(x, SymMap):
        return MixSet(x.keys())
    if isinstance(x, MixDict):
        x = x.keys()
    if isinstance(x, Family):
        if not x.explicit():
            return MixSet(x)
        x = x.values()
    x = builtins.list(x)
    if any(symbolic(v) for v in x):
        return MixSet(Family([One(v) for v in x]))
    return builtins.set(x)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.set, MixSet))


def _fold(op):
    def f(*xs):
        if not any(isinstance(x, MixSet) for x in xs):
            return getattr(builtins.set, op)(*xs)
        r = xs[0] if isinstance(xs[0], MixSet) else MixSet(
            coll.as_family(builtins.list(xs[0])))
        return getattr(r, op)(*xs[1:])
    return f


class set_(builtins.set, metaclass=_SetMeta):
    def __new__(cls, x=()):
        return mkset(x)

    union = staticmethod(_fold('union'))
    intersection = staticmethod(_fold('intersection'))
    difference = staticmethod(_fold('difference'))
