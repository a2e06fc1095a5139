"""Run-time side of the loop instrumentation."""
import builtins
import sys

from . import deps  # noqa: F401
import z3

from . import coll, sym
from .coll import Dom, Family, One, SymMap
from .mix import MixDict, MixSet, mkset, mkdict
from .sym import (Sym, SymBool, SymExt, SymInt, SymReal, Unsupported, cur,
                  real_term, int_term)


def is_family(x):
    if isinstance(x, MixDict):
        return x.unbounded()
    if isinstance(x, MixSet):
        return not x.fam.explicit()
    return isinstance(x, (Family, SymMap)) and not (
        isinstance(x, Family) and x.explicit())


def del_item(x, k):
    coll.del_item(x, k)


def mkdict_(*pairs):
    return mkdict(pairs)


def comp(kind, it, body):
    fam = coll.fam_flatmap(coll.as_family(it), body)
    if kind == 'set':
        return mkset(fam)
    if kind == 'dict':
        return MixDict.from_fam(fam)
    return fam


def concat(kind, xs):
    """The members of the sequences xs, in order."""
    if isinstance(xs, Family):
        if not xs.explicit():
            raise Unsupported('sequences of a sequence of unknown length')
        xs = xs.values()
    if any(is_family(x) for x in xs):
        r = Family([p for x in xs for p in coll.as_family(x).parts])
    else:
        r = [v for x in xs for v in x]
    return mkset(r) if kind == 'set' else r if kind == 'list' else \
        MixDict.from_fam(r) if isinstance(r, Family) else mkdict(r)


Poison = coll.Poison


def unzip(x):
    """zip(*x)"""
    from .shims import norm, zip_
    x = norm(x)
    if not isinstance(x, Family) or x.explicit():
        return zip_(*x)
    if not (x.length() > 0):
        return []
    sizes = builtins.set(
        builtins.len(p.value if isinstance(p, One) else p.value)
        for p in x.parts)
    if builtins.len(sizes) != 1:
        raise Unsupported('zip of unequal rows')
    return [coll.fam_map(x, lambda t, i=i: t[i])
            for i in builtins.range(sizes.pop())]


def leak(it, body):
    """A variable of a list comprehension after it: its last value."""
    for p in reversed(coll.as_family(it).parts):
        if isinstance(p, One):
            return body(p.value)[0]
        if not z3.is_true(z3.simplify(p.guard)):
            break
        c = cur()
        if SymBool(p.dom.card() > 0):
            if p.dom.hi is not None:
                k = p.dom.hi - 1
            else:
                k = z3.Int(c.fresh('last'))
                for f in coll.member_ctx(p.dom, k):
                    c.add(f)
            return body(p.at(k)[1])[0]
    return Poison()




def _depends(t, c):
    return any(e.eq(c) for e in sym.walk([t]))


def _val_depends(v, consts):
    for x in _terms(v):
        for c in consts:
            if _depends(x, c):
                return True
    return False


def _terms(v):
    if isinstance(v, SymExt):
        return [v.fin, v.t]
    if isinstance(v, Sym):
        return [v.t]
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in _terms(x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in _terms(x)]
    return []


class _Rec(object):
    """Stands for a list being appended to during the generic iteration; any
    other use of it is outside the template."""

    def __init__(self):
        self.items = []

    def append(self, v):
        self.items.append(v)
    add = append

    def extend(self, vs):
        self.items.extend(vs)

    def _bad(self, *a, **k):
        raise Unsupported('read of a list under construction')
    __len__ = __iter__ = __getitem__ = __contains__ = __add__ = __eq__ = _bad
    __bool__ = _bad
    __hash__ = None


def run_for(it, body, getters, appended, setter, loaded=None):
    fam = coll.as_family(it)
    if STEPS[0] is not None and STEPS[0].matches(fam):
        return STEPS[0].run(fam.parts[0], body, getters, appended, setter,
                            loaded or {})
    for part in fam.parts:
        if isinstance(part, One):
            body(part.value)
        else:
            _generic(part, body, getters, appended, setter, fam.token)


def _generic(part, body, getters, appended, setter, token=None):
    old = {}
    for n, g in getters.items():
        try:
            old[n] = g()
        except NameError:
            pass
    lists = {}
    for n, g in appended.items():
        try:
            v = g()
        except NameError:
            continue
        if isinstance(v, (builtins.list, Family, builtins.set, MixSet)):
            if sys.getrefcount(v) > 3 + (old.get(n) is v) and \
                    not coll._allowed(v):
                raise Unsupported(
                    'a container known elsewhere grows in an unbounded loop')
            lists[n] = v
    kv = z3.Int(cur().fresh('k'))
    guard, elem = part.at(kv)
    consts = {}

    def once():
        acc = {}
        for n, v in old.items():
            if isinstance(v, (SymInt, SymReal)) or (
                    isinstance(v, (int, float)) and not isinstance(v, bool)
                    and not sym.nonfinite(v)):
                # the accumulator at the start of a generic iteration
                c = consts.get(n)
                if c is None:
                    c = consts[n] = z3.Real(cur().fresh('acc_' + n))
                acc[n] = c
                setter(n, SymReal(c))
            elif n in lists:
                pass
            else:
                setter(n, v)
        recs = {}
        for n in lists:
            recs[n] = _Rec()
            setter(n, recs[n])
        body(elem)
        out = {}
        for n, g in getters.items():
            try:
                out[n] = g()
            except NameError:
                out[n] = None
        for n in lists:
            if appended[n]() is not recs[n] and n not in getters:
                raise Unsupported('list rebound in an unbounded loop')
        return (out, dict((n, builtins.list(r.items)) for n, r in recs.items()))

    res = coll._explore_local(once, kv,
                              coll.member_ctx(part.dom, kv) + [guard])
    allc = list(consts.values())
    for c, (out, app) in res:
        if any(_depends(c, a) for a in allc):
            raise Unsupported('branch on an accumulator in an unbounded loop')
    for n in getters:
        if n in lists:
            continue
        if n in consts:
            a = consts[n]
            incs = []
            changed = False
            ok = True
            for c, (out, app) in res:
                v = out[n]
                if isinstance(v, SymReal) and v.t.eq(a):
                    incs.append((c, SymReal(z3.RealVal(0))))
                    continue
                changed = True
                if isinstance(v, SymExt) or not isinstance(
                        v, (Sym, int, float)):
                    ok = False
                    break
                d = z3.simplify(real_term(v) - a, som=True)
                if any(_depends(d, x) for x in allc):
                    ok = False
                    break
                incs.append((c, SymReal(d)))
            if not changed:
                setter(n, old[n])
            elif ok:
                p = Dom(part.dom, kv, guard, coll.merge(incs))
                o = old[n]
                s = coll.sum_term(p)
                setter(n, o + s)
            else:
                setter(n, Poison())
        else:
            # bound before, or a temporary
            vals = [out[n] for c, (out, app) in res]
            if n in old and all(v is old[n] for v in vals):
                setter(n, old[n])
            else:
                setter(n, Poison())
    for n, lst in lists.items():
        if any(_val_depends(app[n], allc) for c, (out, app) in res):
            raise Unsupported('appended value depends on an accumulator')
        lens = set(len(app[n]) for c, (out, app) in res)
        if lens == {0}:
            setter(n, lst)
            continue
        isset = isinstance(lst, (builtins.set, MixSet))
        if max(lens) > 1:
            raise Unsupported('several appends per iteration')
        kept = [(c, app[n][0]) for c, (out, app) in res if app[n]]
        g = guard
        if len(kept) != len(res):
            g = z3.simplify(z3.And(guard, z3.Or(*[c for c, _ in kept])))
        was = coll.as_family(
            lst.fam if isinstance(lst, MixSet) else builtins.list(lst)
            if isset else lst)
        new = Family(was.parts + [Dom(part.dom, kv, g, coll.merge(kept))],
                     token if not was.parts
                     else getattr(lst, 'token', None))
        setter(n, MixSet(new) if isset else new)


# --------------------------------------------------------------------------
# while loops: cut at the head by an invariant.

class Restart(BaseException):
    """The invariant was weakened: prove the unit again."""


RULE = [None]
STEPS = [None]


def same_maps(a, b, keys_only=False):
    """Conditions and verdicts: a and b agree at an arbitrary key."""
    k = z3.Int(cur().fresh('arbitrary'))

    def cmp():
        q = SymInt(k)
        ina, inb = bool(q in a), bool(q in b)
        if ina != inb:
            return False
        return a[q] == b[q] if ina and not keys_only else True
    return coll._explore_local(cmp, k, [])


def set_content(obj, new):
    """Give the map obj the contents of new."""
    if isinstance(obj, MixSet):
        obj.fam = new.fam
        return
    if isinstance(obj, MixDict):
        n = MixDict()
        n.update(new)
        builtins.dict.clear(obj)
        builtins.dict.update(obj, builtins.dict(builtins.dict.items(n)))
        obj.__dict__.clear()
        obj.__dict__.update(n.__dict__)
    else:
        coll.widen(obj)
        obj.mix = MixDict()
        obj.mix.update(new)


class Steps(object):
    """The invariant rule for a for loop over range(n) or a table of n values:
    each changed local is, after i iterations, one of the given functions of i
    (numbers and maps), what it was before, or arbitrary.  Found by dropping
    the candidates that do not hold (Houdini)."""

    def __init__(self, E, fam, numbers, maps, each):
        self.E, self.numbers, self.maps = E, numbers, maps
        self.each = each
        fam = coll.as_family(fam)
        self.dom = fam.parts[0].dom
        if len(fam.parts) != 1 or self.dom.hi is None:
            raise Unsupported('steps over this sequence')
        self.index, self.ran = None, 0
        self.dropped = E.results.setdefault('dropped', set())
        STEPS[0] = self

    def matches(self, fam):
        return len(fam.parts) == 1 and isinstance(fam.parts[0], Dom) and \
            fam.parts[0].dom.key() == self.dom.key() and \
            z3.is_true(z3.simplify(fam.parts[0].guard))

    def now(self):
        if self.index is None:
            raise Unsupported('a step outside the loop')
        return self.index

    def holds(self, a, b):
        from . import prove
        e = a == b
        if not isinstance(e, Sym):
            return bool(e)
        return prove.prove(cur(), builtins.list(cur().pc), sym.bool_term(e),
                           self.E.deadline)[0] == 'proved'

    def agree(self, a, b):
        from . import prove
        if isinstance(a, MixSet) != isinstance(b, MixSet):
            return False
        for c, out in same_maps(a, b, isinstance(a, MixSet)):
            if out is False:
                if prove.prove(cur(), builtins.list(cur().pc) + [c],
                               z3.BoolVal(False), self.E.deadline)[0] \
                        != 'proved':
                    return False
            elif isinstance(out, Sym) and prove.prove(
                    cur(), builtins.list(cur().pc) + [c], sym.bool_term(out),
                    self.E.deadline)[0] != 'proved':
                return False
        return True

    def drop(self, x, k):
        self.dropped.add((self.ran, x, k))
        raise Restart()

    def run(self, part, body, getters, appended, setter, loaded):
        self.ran += 1
        old = {}
        for x, g in builtins.list(loaded.items()) + builtins.list(
                getters.items()):
            try:
                old[x] = g()
            except NameError:
                pass
        number = lambda v: isinstance(
            v, (SymInt, SymReal, int, float)) and not isinstance(
                v, bool) and not sym.nonfinite(v)
        amap = lambda v: isinstance(v, (SymMap, MixDict, MixSet))
        choice = {}
        for x, v in old.items():
            if number(v) and x in getters:
                fs, eq = self.numbers, self.holds
            elif amap(v):
                fs, eq = self.maps, self.agree
            else:
                continue
            for k, f in enumerate(fs):
                if (self.ran, x, k) in self.dropped:
                    continue
                if eq(v, f(SymInt(z3.IntVal(0)))):
                    choice[x] = k
                    break
                self.drop(x, k)
        i = z3.Int(cur().fresh('step'))
        lo = self.dom.lo
        cur().add(i >= 0)
        cur().add(i <= self.dom.card())
        index = SymInt(i)

        def state(j):
            for x, k in choice.items():
                if x in getters and not amap(old[x]):
                    setter(x, self.numbers[k](j))
                else:
                    set_content(old[x], self.maps[k](j))
        state(index)
        for x in getters:
            if x not in choice:
                if x in old and not number(old[x]):
                    setter(x, old[x])
                elif x in old and (self.ran, x, 'same') not in self.dropped:
                    setter(x, old[x])
                else:
                    setter(x, Poison())
        if appended and any(isinstance(a(), (builtins.list, Family))
                            for a in appended.values()):
            raise Unsupported('a list under construction in stepped loop')
        if not cur().decide(i < self.dom.card()):
            self.index = None
            return
        self.index = index
        heap = coll.Frame(old[x] for x in choice if amap(old[x]))
        coll._heap.append(heap)
        kept = dict((x, v) for x, v in old.items()
                    if amap(v) and x not in choice)
        before = dict((x, v.copy() if isinstance(v, (MixDict, MixSet))
                       else v.clone()) for x, v in kept.items())
        try:
            body(part.at(lo + i if lo is not None else i)[1])
        finally:
            coll._heap.remove(heap)
        if heap:
            raise Unsupported('a stepped loop changes an object')
        for x, v in kept.items():
            if v is not old[x] or not self.agree(v, before[x]):
                raise Unsupported('a map of a stepped loop changes: ' + x)
        for x, k in choice.items():
            if x in getters and not amap(old[x]):
                if not self.holds(getters[x](), self.numbers[k](index + 1)):
                    self.drop(x, k)
            else:
                v = getters[x]() if x in getters else old[x]
                if v is not old[x]:
                    raise Unsupported('a map is rebound in a stepped loop')
                if not self.agree(v, self.maps[k](index + 1)):
                    self.drop(x, k)
        for x in getters:
            if x in choice or x not in old:
                continue
            v = getters[x]()
            if number(old[x]):
                if (self.ran, x, 'same') not in self.dropped and not (
                        number(v) and self.holds(v, old[x])):
                    self.drop(x, 'same')
            elif v is not old[x]:
                raise Unsupported('a local is rebound in a stepped loop: ' + x)
        if self.each is not None:
            self.each(index)
        raise sym.PathEnd()


class While(object):
    """With a rule: the body is run once, from an arbitrary state that
    satisfies the invariant, and the invariant is proved to be restored.

    The invariant is found: each local number that the loop changes is either
    its first value, or that plus the number of iterations, or one of the
    sequences the contract names, or arbitrary.  An iteration after which the
    loop ends may leave the invariant."""
    limit = 20000

    def __init__(self):
        self.rule, self.n = RULE[0], 0
        if self.rule is not None:
            self.rule = self.rule.take()

    def head(self, changed, loaded):
        self.n += 1
        if self.rule is None:
            if self.n > self.limit:
                raise Unsupported('a loop without an invariant')
            return
        r = self.rule
        now = {}
        for x, g in changed.items():
            try:
                now[x] = g()
            except NameError:
                pass
        if self.n == 1:
            r.enter()
            self.first = now
            self.values = {}
            for x, v in now.items():
                num = isinstance(v, (SymInt, SymReal, int, float)) and \
                    not isinstance(v, bool) and not sym.nonfinite(v)
                if not num:
                    self.values[x] = Poison()
                    continue
                ok = self.kinds(x, v)
                if ok and ok[0] != 'positive':
                    self.values[x] = self.at(ok[0], v, r.count)
                    continue
                c = z3.Real(cur().fresh('any_' + x))
                self.values[x] = SymReal(c)
                if ok:
                    cur().add(c > 0)
            self.heap = {}
            coll._heap.append(self.heap)
            self.shape = self.look(loaded)
            return
        if self.n > 2:
            raise Unsupported('a loop with an invariant goes on')
        coll._heap.remove(self.heap)
        r.end_of_round()
        self.now = now
        self.changed = bool(self.heap or self.look(loaded) != self.shape)

    def kinds(self, x, v):
        r = self.rule
        if (x, 'first') not in r.dropped:
            # the sequences have to begin with the first value
            for i, f in enumerate(r.values):
                if not r.holds(v, f(0)):
                    r.dropped.add((x, i))
            if not r.true(v > 0):
                r.dropped.add((x, 'positive'))
            r.dropped.add((x, 'first'))
        return [k for k in list(builtins.range(len(r.values))) + [
            'count', 'same', 'positive'] if (x, k) not in r.dropped]

    def at(self, kind, v, m):
        return v + m if kind == 'count' else v if kind == 'same' else \
            self.rule.values[kind](m)

    def decide(self, test):
        """The condition of the loop."""
        if self.rule is None or self.n == 1:
            return test
        r = self.rule
        test = bool(test)
        kept = not self.changed
        wrong = []
        for x, v in self.first.items():
            if isinstance(self.values[x], Poison):
                continue
            for k in self.kinds(x, v)[:1]:
                y = self.now.get(x)
                if not isinstance(y, (Sym, int, float)) or not (
                        r.true(y > 0) if k == 'positive' else
                        r.holds(y, self.at(k, v, r.count + 1))):
                    kept = False
                    wrong.append((x, k))
        if test and wrong:
            # a wrong guess about one number may spoil a right one
            guesses = [w for w in wrong if w[1] in ('count', 'same')]
            r.dropped.update(guesses or wrong)
            raise Restart()
        if test and self.changed:
            raise Unsupported('a loop with an invariant changes an object')
        if test:
            r.back()
        if kept:
            # the state after one more round, which the first test covers
            raise sym.PathEnd()
        return False

    @staticmethod
    def look(loaded):
        out = {}
        for x, g in loaded.items():
            try:
                v = g()
            except NameError:
                continue
            if isinstance(v, builtins.dict):
                out[x] = [(k, id(y)) for k, y in v.items()]
            elif isinstance(v, (builtins.list, tuple, builtins.set)):
                out[x] = [id(y) for y in v]
            elif getattr(v, '__dict__', None) and not isinstance(
                    v, (Sym, Poison, type, type(z3))) and not callable(v):
                out[x] = [(k, id(y)) for k, y in vars(v).items()]
        return out

    def val(self, x, g):
        if self.rule is not None and self.n == 1:
            return self.values[x] if x in self.values else Poison()
        try:
            return g()
        except NameError:
            return Poison()


NAMES = {
    '__vf_while__': While,
    '__vf_is_family__': is_family, '__vf_comp__': comp, '__vf_for__': run_for,
    '__vf_leak__': leak, '__vf_unzip__': unzip,
    '__vf_delitem__': del_item, '__vf_dict__': mkdict_,
    '__vf_mut__': coll.mutate, '__vf_concat__': concat,
    '__vf_dictof__': mkdict, '__vf_setof__': mkset,
    '__vf_setattr__': coll.set_attr, '__vf_setitem__': coll.set_item,
}
