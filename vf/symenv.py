"""The symbolic environment for contract units, and path exploration."""
import math
import time
import traceback

from . import deps  # noqa: F401
import z3

from . import coll, prove, shims, spec, sym
from .coll import Dom, Domain, Family, NpFamily, One, SymMap
from .sym import (Sym, SymBool, SymExt, SymInt, SymReal, Unsupported, cur,
                  int_term, real_term, bool_term)


class Abort(BaseException):
    pass


class SymRng(object):
    """rng draws: an arbitrary value of the law's support, recorded."""

    def __init__(self, E):
        self.E = E
        self.draws = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'choice':
            return self._choice
        if name == 'shuffle':
            return self._shuffle
        if name == 'permutation':
            return self._permutation
        if name == 'randint':
            return self._randint
        if name == 'multivariate_normal':
            return self._mvnormal
        if name not in spec.RNG_SIG:
            raise Unsupported('rng.%s' % name)

        def draw(*a, **k):
            if coll.scope():
                raise Unsupported('rng draw in a generic iteration')
            p, size = spec.bind(name, a, k)
            if size is not None:
                raise Unsupported('vector draw')
            n, p = spec.canonical_draw(name, p)
            isint = n in ('geometric', 'poisson', 'negative_binomial')
            c = coll.fresh('draw_' + n,
                           z3.IntSort() if isint else z3.RealSort())
            v = SymInt(c) if isint else SymReal(c)
            if n in ('gamma', 'exponential', 'chisquare'):
                cur().add(c > 0)
            elif n == 'beta':
                cur().add(z3.And(c > 0, c < 1))
            elif n == 'uniform':
                cur().add(z3.And(c >= real_term(p['low']),
                                 c < real_term(p['high'])))
            elif n == 'geometric':
                cur().add(c >= 1)
            elif n in ('poisson', 'negative_binomial'):
                cur().add(c >= 0)
            elif n == 'vonmises':
                cur().add(z3.And(c >= -sym.PI, c <= sym.PI))
            self.draws.append((n, p, v))
            return v
        return draw

    def _randint(self, low, high=None, size=None):
        if size is not None:
            raise Unsupported('vector draw')
        low, high = (0, low) if high is None else (low, high)
        return self._choice(list(range(low, high)))

    def _mvnormal(self, mean, cov, size=None):
        if size is not None:
            raise Unsupported('vector draw')
        v = shims.symarray([SymReal(coll.fresh('draw_mvn', z3.RealSort()))
                            for _ in mean])
        self.draws.append(('multivariate_normal', {
            'mean': mean, 'cov': cov}, v))
        return v

    def _permutation(self, x):
        """The elements in any order."""
        from .shims import norm
        x = norm(x)
        if isinstance(x, int):
            x = list(range(x))
        if isinstance(x, SymInt):
            x = coll.rng_family(x)
        if isinstance(x, (Family, SymMap)):
            x = coll.as_family(x)
            if not x.explicit():
                return Family(x.parts, cur().fresh('perm'))
            x = x.values()
        x = list(x)
        self._shuffle(x)
        return x

    def _shuffle(self, x):
        """Any permutation of an explicit list."""
        if not isinstance(x, list):
            raise Unsupported('shuffle of an unbounded sequence')
        for i in range(len(x) - 1):
            w = z3.Int(cur().fresh('perm'))
            j = i
            while j < len(x) - 1 and not cur().decide(w == j):
                j += 1
            x[i], x[j] = x[j], x[i]

    def _choice(self, a, size=None, replace=True, p=None):
        if size is not None:
            raise Unsupported('choice with size')
        if isinstance(a, (int, SymInt)) and not isinstance(a, Sym):
            items = list(range(a))
        elif isinstance(a, SymInt):
            items = coll.rng_family(a)
        else:
            items = a
        if isinstance(items, Family) and not items.explicit():
            fam = items
            # an arbitrary element
            alts = []
            i = z3.Int(cur().fresh('pick'))
            w = z3.Int(cur().fresh('which'))
            val = None
            for n, q in enumerate(fam.parts):
                last = n == len(fam.parts) - 1
                if last or cur().decide(w == n):
                    if isinstance(q, One):
                        val = q.value
                    else:
                        g, val = q.at(i)
                        for c in coll.member_ctx(q.dom, i):
                            cur().add(c)
                        cur().add(g)
                    break
            lw = None
            if p is None:
                lw = coll.fam_map(items, lambda x: SymReal(z3.RealVal(0)))
            elif isinstance(p, Family):
                lw = coll.fam_map(p, sym.log)
            self.draws.append(('choice', {'a': items, 'p': p, 'logw': lw},
                               val))
            return val
        items = list(items)
        n = len(items)
        j = 0
        w = z3.Int(cur().fresh('which'))
        while j < n - 1 and not cur().decide(w == j):
            j += 1
        if p is None:
            pp = [SymReal(z3.RealVal(1) / n)] * n
        else:
            pp = list(p)
        self.draws.append(('choice', {'a': items, 'p': pp}, items[j]))
        return items[j]


class SymE(spec.EnvBase):
    symbolic = True

    def __init__(self, path, results, unit_id):
        self.path, self.results, self.unit_id = path, results, unit_id
        self.deadline = None
        self.undo = []

    # ---- values
    def _bounds(self, t, lo, hi, lo_open, hi_open):
        if lo is not None:
            l = real_term(lo)
            cur().add(t > l if lo_open else t >= l)
        if hi is not None:
            h = real_term(hi)
            cur().add(t < h if hi_open else t <= h)

    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True,
             typical=None):
        t = coll.fresh(name, z3.RealSort())
        self._bounds(t, lo, hi, lo_open, hi_open)
        return SymReal(t)

    def ext(self, name):
        """A number or minus infinity."""
        return SymExt(coll.fresh('fin_' + name, z3.BoolSort()),
                      coll.fresh(name, z3.RealSort()))

    def occasion(self, name):
        """The number of this call among those of the comprehension it is
        made in (among all calls outside one)."""
        sc = coll.scope()
        if sc:
            if len(sc) > 1:
                raise Unsupported('nested occasions')
            return SymInt(sc[-1])
        n = self.__dict__.setdefault('_occasions', {})
        n[name] = n.get(name, -1) + 1
        return n[name]

    def may(self, finite, x):
        """x, or minus infinity unless finite is positive."""
        return SymExt(int_term(finite) > 0, real_term(x))

    def int(self, name, lo=None, hi=None):
        t = coll.fresh(name, z3.IntSort())
        if lo is not None:
            cur().add(t >= int_term(lo))
        if hi is not None:
            cur().add(t < int_term(hi))
        return SymInt(t)

    def size(self, name, lo=0, hi=None):
        return self.int('size_' + name, lo)

    def choice(self, name, options):
        w = z3.Int(cur().fresh('choice_' + name))
        for j in range(len(options) - 1):
            if cur().decide(w == j):
                return options[j]
        return options[-1]

    def flag(self, name):
        return cur().decide(z3.Bool(cur().fresh(name)))

    def assume(self, c):
        if isinstance(c, Sym):
            t = bool_term(c)
            cur().add(t)
            if cur().check() == z3.unsat:
                raise sym.PathEnd()
        elif not c:
            raise sym.PathEnd()

    def lemma(self, name, c):
        """A fact of mathematics the solver is given (listed in evidence)."""
        self.results['lemmas'].add(name)
        cur().add(bool_term(c))

    def positive(self, name, x):
        """A term that is positive by a lemma proved in specs/lemmas.py."""
        self.lemma(name, x > 0)
        cur().positives.append(real_term(x))

    # ---- obligations
    def ensure(self, name, c, detail=None):
        if isinstance(c, Sym):
            goal = bool_term(c)
        else:
            goal = z3.BoolVal(bool(c))
        self._discharge(name, goal, detail)

    def _discharge(self, name, goal, detail=None):
        t = time.time()
        p = cur()
        st, back, model = prove.prove(p, list(p.pc), goal, self.deadline)
        dt = time.time() - t
        if st != 'proved':
            # the path itself may be infeasible
            if prove.smt(list(p.pc), p.facts, z3.BoolVal(False),
                         prove.Budget.z3_ms)[0] == z3.unsat:
                raise sym.PathEnd()
        self.results['obligations'].append(dict(
            unit=self.unit_id, name=name, status=st, backend=back,
            seconds=round(dt, 3),
            goal=str(z3.simplify(goal))[:400] if st != 'proved' else None,
            pc=[str(f)[:200] for f in p.pc[-12:]] if st != 'proved'
            else None,
            model=model_dict(model) if st != 'proved' else None))
        p.add(goal)

    def ensure_eq(self, name, a, b, tol=None):
        from .shims import symarray
        if a is None or b is None:
            return self.ensure(name, a is b)
        if isinstance(a, dict) and isinstance(b, dict):
            self.ensure(name + ' (keys)', list(sorted(a, key=str)) == list(
                sorted(b, key=str)))
            for k in a:
                if k in b:
                    self.ensure_eq('%s[%s]' % (name, k), a[k], b[k])
            return
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            self.ensure(name + ' (length)', len(a) == len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.ensure_eq('%s[%d]' % (name, i), x, y)
            return
        if isinstance(a, str) or isinstance(b, str):
            return self.ensure(name, a == b)
        if isinstance(a, Family) or isinstance(b, Family):
            return self.family_eq(name, a, b)
        if isinstance(a, sym.SymCell) or isinstance(b, sym.SymCell):
            if not isinstance(a, sym.SymCell):
                a, b = b, a
            return self._discharge(name, a.same(b))
        if isinstance(a, SymExt) or isinstance(b, SymExt):
            fa, ta = coll._ext(a)
            fb, tb = coll._ext(b)
            self._discharge(name + ' (finite)', fa == fb)
            p = cur()
            saved, savedset = list(p.pc), set(p.pcset)
            p.add(fa)
            if p.check() != z3.unsat:
                self._discharge(name, ta == tb)
            p.pc, p.pcset = saved, savedset
            return
        if sym.nonfinite(a) or sym.nonfinite(b):
            if is_nan(a) or is_nan(b):
                return self.ensure(name, is_nan(a) and is_nan(b))
            return self.ensure(name, sym.nonfinite(a) and sym.nonfinite(b)
                               and float(a) == float(b))
        num = (Sym,) + sym.NUM
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, SymBool) or isinstance(b, SymBool):
                return self._discharge(name, bool_term(a) == bool_term(b))
            if isinstance(a, SymInt) and isinstance(b, SymInt):
                return self._discharge(name, a.t == b.t)
            return self._discharge(name, real_term(a) == real_term(b))
        return self.ensure(name, a == b)

    def family_eq(self, name, a, b):
        """Equality of families as sequences: same parts pointwise."""
        def parts(f):
            k = z3.Int(cur().fresh('e'))
            return [p for p in coll.as_family(f).parts if isinstance(
                p, One) or not coll.known(z3.Not(z3.And(
                    p.at(k)[0], *coll.member_ctx(p.dom, k))))]
        a, b = parts(a), parts(b)
        self.ensure(name + ' (shape)', len(a) == len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            if isinstance(p, One) and isinstance(q, One):
                self.ensure_eq('%s[%d]' % (name, i), p.value, q.value)
            elif isinstance(p, Dom) and isinstance(q, Dom) and \
                    p.dom.key() == q.dom.key():
                k = z3.Int(cur().fresh('e'))
                g1, v1 = p.at(k)
                g2, v2 = q.at(k)
                cu = cur()
                saved, savedset = list(cu.pc), set(cu.pcset)
                for c in coll.member_ctx(p.dom, k):
                    cu.add(c)
                self._discharge('%s[%d] (filter)' % (name, i), g1 == g2)
                cu.add(g1)
                self.ensure_eq('%s[%d]' % (name, i), v1, v2)
                cu.pc, cu.pcset = saved, savedset
            else:
                self.fail(name, 'different domains')

    def fail(self, name, detail=None):
        self._discharge(name, z3.BoolVal(False), detail)
        raise sym.PathEnd()

    # ---- collections
    def map(self, name, gen, keys=None, lo=0, hi=None):
        dom = Domain(cur().fresh(name))
        cur().facts.append(dom.card() >= lo)
        fs = {}

        def valuef(k):
            with AtKey(self, k, dom):
                return gen(k)
        m = SymMap(dom, GenMemo(self, name, gen, dom))
        return m

    ordered_map = map
    events = ()

    def mapped(self, f, xs):
        from .shims import map_
        return map_(f, xs)

    def assume_each(self, m, cond):
        kv = z3.Int('#f_%s' % m.dom.name)
        sc = list(coll.scope())
        coll.scope()[:] = [kv]
        try:
            c = cond(SymInt(kv))
        finally:
            coll.scope()[:] = sc
        cur().__dict__.setdefault('domfacts', {}).setdefault(
            m.dom.key(), []).append((kv, [bool_term(c)]))

    @staticmethod
    def has(m, k):
        """k is a key of the (unwritten) map, as a condition."""
        if not isinstance(m, SymMap):
            from .mix import has_term
            return SymBool(has_term(m, k))
        if m.over:
            raise Unsupported('has')
        return SymBool(m.dom.member(int_term(k)))

    def assume_below(self, n, cond):
        class Range(object):
            dom = coll.rng_family(n).parts[0].dom
        self.assume_each(Range, cond)

    def dict(self, pairs):
        from .mix import MixDict, mkdict
        if isinstance(pairs, Family) and not pairs.explicit():
            return MixDict.from_fam(pairs)
        return mkdict(pairs)

    def empty_map(self):
        """A map without entries that can take arbitrary keys."""
        return SymMap(Domain(cur().fresh('empty'), (), z3.IntVal(0),
                             z3.IntVal(0)), lambda k: None)

    def map_over(self, m, f):
        return SymMap(m.dom, f)

    @staticmethod
    def keys(m):
        return m.keys()

    @staticmethod
    def keyset(m):
        from .mix import mkset
        return mkset(m.keys())

    @staticmethod
    def any(xs):
        from .shims import any_
        return any_(xs)

    @staticmethod
    def truth(x):
        return bool(x)

    @staticmethod
    def pairs(m):
        return m.items()

    @staticmethod
    def dict_of(pairs):
        """The map of some (key, value) pairs."""
        from .shims import dict_
        return dict_(pairs)

    @staticmethod
    def copy(m):
        return m.clone() if isinstance(m, SymMap) else m.copy()

    @staticmethod
    def filtered(f, xs):
        from .shims import filter_
        return filter_(f, xs)

    def part_of(self, name, m, gen):
        r = self.map(name, gen)
        self.assume_each(r, lambda k: SymBool(z3.And(
            *coll.member_ctx(m.dom, int_term(k)))))
        return r

    def submap(self, m, cond, f=lambda k: None):
        return coll.SubMap(m.dom, cond, f)

    def objects_over(self, m, name, make):
        return self.objects(name, make, dom=m.dom)

    def same(self, a, b):
        """The same cell, possibly a missing one."""
        if isinstance(b, sym.SymCell):
            a, b = b, a
        if isinstance(a, sym.SymCell):
            return SymBool(a.same(b))
        if is_nan(a) or is_nan(b):
            return is_nan(a) and is_nan(b)
        return self.eq(a, b)

    @staticmethod
    def missing(x):
        """Is the cell missing?"""
        if isinstance(x, sym.SymCell):
            return SymBool(x.nan)
        return is_nan(x)

    def object_list(self, name, make, lo=0, hi=None):
        n = self.size(name, lo)
        fam = coll.rng_family(n)
        p = fam.parts[0]
        m = self.objects(name, make, dom=p.dom)
        return Family([Dom(p.dom, p.kvar, coll.TRUE, m.valuef(SymInt(p.kvar)))],
                      'range'), m

    def objects(self, name, make, lo=0, hi=None, keys=None, dom=None):
        if dom is None:
            dom = Domain(cur().fresh(name))
            cur().facts.append(dom.card() >= lo)
        self.events = []
        fam = coll.ObjFamily()
        memo = fam.memo

        def valuef(k):
            key = z3.simplify(int_term(k)).sexpr()
            if key not in memo:
                o = memo[key] = make(SymInt(int_term(k)))
                for n in fam.dirty:
                    setattr(o, n, coll.Poison())
                o._vf_family = fam
                o._vf_subst = lambda pairs: valuef(SymInt(
                    z3.substitute(int_term(k), *pairs)))
            return memo[key]
        return SymMap(dom, valuef)

    def setattr(self, o, name, v):
        fam = getattr(o, '_vf_family', None)
        if fam is not None:
            return fam.write(o, name, v)
        coll.set_attr(o, name, v)

    def event(self, kind, key, payload=None):
        if self.events == ():
            self.events = []
        sc = [v for v in coll.scope()]
        if len(sc) == 1 and isinstance(key, SymInt) and not key.t.eq(
                sc[0]) and coll.known(key.t == sc[0]):
            key = SymInt(sc[0])
        # what follows from the rest is no condition
        cond = [c for c in cur().pc if c.get_id() not in cur().implied and
                any(e.eq(v) for v in sc for e in sym.walk([c]))]
        e = (kind, key, payload, tuple(sc), z3.And(*cond) if cond
             else coll.TRUE)
        sig = (kind, str(key), tuple(str(v) for v in sc), str(e[4]),
               self.shape())
        if sig not in [x[5] for x in self.events] or not sc:
            self.events.append(e + (sig,))

    def shape(self):
        return None

    def ensure_each(self, name, m, kind, check=lambda k, p: True):
        ev = [e for e in self.events if e[0] == kind]
        k = z3.Int(cur().fresh('each'))
        cover, last = [], {}
        for _, key, pay, sc, cond, _ in ev:
            if len(sc) > 1:
                raise Unsupported('event in a nested generic iteration')
            if sc:
                if not int_term(key).eq(sc[0]):
                    raise Unsupported('event for a computed key')
                pairs = [(sc[0], k)]
                c = z3.substitute(cond, *pairs)
                last.setdefault(sc[0].sexpr(), []).append(
                    (c, coll.subst(pay, pairs) if pay is not None else None))
            else:
                last.setdefault('#' + int_term(key).sexpr(), []).append(
                    (int_term(key) == k, pay))
        cu = cur()
        for c in coll.member_ctx(m.dom, k):
            pass
        saved, savedset = list(cu.pc), set(cu.pcset)
        if k is not None:
            has = m.has(SymInt(k))
            if not has:
                self._discharge(name + ' (no other)', z3.Not(z3.Or(
                    *[c for v in last.values() for c, _ in v])))
            else:
                for c in coll.member_ctx(m.dom, k):
                    cu.add(c)
                groups = [z3.Or(*[c for c, _ in v]) for v in last.values()]
                self._discharge(name + ' (each)', z3.Or(*groups))
                for i in range(len(groups)):
                    for j in range(i):
                        self._discharge(name + ' (once)', z3.Not(z3.And(
                            groups[i], groups[j])))
                for v in last.values():
                    for c, pay in v:
                        s2, ss2 = list(cu.pc), set(cu.pcset)
                        cu.add(c)
                        if cu.check() != z3.unsat:
                            self.ensure(name, check(SymInt(k), pay))
                        cu.pc, cu.pcset = s2, ss2
        cu.pc, cu.pcset = saved, savedset

    def fold(self, m, f):
        if isinstance(m, dict):
            return sum(f(k, v) for k, v in m.items())
        return m.fold(f)

    def array(self, name, n, gen):
        fam = coll.rng_family(n)
        d = fam.parts[0].dom
        gm = GenMemo(self, name, gen, d)
        k = fam.parts[0].kvar
        sc = coll.scope()
        sc.append(k)
        v = gm(SymInt(k))
        sc.pop()
        return NpFamily([Dom(d, k, coll.TRUE, v)], 'range')

    def seq(self, name, gen, lo=0, hi=None):
        n = self.size(name, lo)
        f = self.array(name, n, gen)
        return Family(f.parts, 'range')

    def table(self, name, n, f):
        return Family(self.array(name, n, f).parts, 'range')

    def upto(self, n):
        """{i: i} for 0 <= i < n."""
        return SymMap(coll.rng_family(n).parts[0].dom, lambda i: i)

    def func(self, name, sort='real', lo=None, hi=None):
        base = cur().fresh(name)

        def f(*args):
            ts = [int_term(a) if isinstance(a, (SymInt, int)) else
                  real_term(a) for a in args]
            fn = z3.Function(base, *([t.sort() for t in ts] + [
                z3.RealSort() if sort == 'real' else z3.IntSort()]))
            t = fn(*ts) if ts else z3.Const(
                base, z3.RealSort() if sort == 'real' else z3.IntSort())
            if lo is not None:
                cur().bound(t > real_term(lo) if sort == 'real'
                            else t >= int_term(lo))
            if hi is not None:
                cur().bound(t < real_term(hi) if sort == 'real'
                            else t < int_term(hi))
            return SymReal(t) if sort == 'real' else SymInt(t)
        return f

    def cells(self, name):
        """An arbitrary function of integers to cells."""
        base = cur().fresh(name)

        def f(*args):
            ts = [int_term(a) for a in args]
            ss = [z3.IntSort()] * len(ts)
            return sym.SymCell(
                z3.Function('no_' + base, *(ss + [z3.BoolSort()]))(*ts),
                z3.Function(base, *(ss + [z3.RealSort()]))(*ts))
        return f

    def sum(self, fam, f=lambda x: x):
        return coll.fold_sum(coll.fam_map(coll.as_family(fam), f).parts)

    def length(self, x):
        from .shims import len_
        return len_(x)

    def forall(self, name, fam, cond):
        fam = coll.as_family(fam)
        for i, p in enumerate(fam.parts):
            if isinstance(p, One):
                self.ensure(name, cond(p.value))
            else:
                k = z3.Int(cur().fresh('e'))
                cu = cur()
                g, v = p.at(k)
                res = coll._explore_local(
                    lambda: cond(v), k, coll.member_ctx(p.dom, k) + [g])
                for c, out in res:
                    saved, savedset = list(cu.pc), set(cu.pcset)
                    for m in coll.member_ctx(p.dom, k):
                        cu.add(m)
                    cu.add(g)
                    cu.add(c)
                    self.ensure(name, out)
                    cu.pc, cu.pcset = saved, savedset

    def pick(self, name, m):
        k = z3.Int(cur().fresh(name))
        for c in coll.member_ctx(m.dom, k):
            cur().add(c)
        cur().add(m.dom.card() >= 1)
        if isinstance(m, coll.SubMap):
            if m.over:
                raise Unsupported('pick of a written submap')
            cur().add(m.guard(k))
        coll.note_member(m.dom, k)
        return SymInt(k)

    # ---- contracts in place of callees
    def stub(self, path, fn):
        m, _, q = path.partition(':')
        o = __import__('importlib').import_module(m)
        parts = q.split('.')
        for part in parts[:-1]:
            o = getattr(o, part)
        old = o.__dict__[parts[-1]]
        self.undo.append((o, parts[-1], old))
        setattr(o, parts[-1], staticmethod(fn) if isinstance(
            old, staticmethod) else fn)
        self.results['stubs'].add(path)

    patch = stub

    def rounds(self, log, round_of, havoc=lambda m: None,
               inv=lambda m: True):
        """The loops of the code run rounds: log gets round_of(m) in the m-th
        complete iteration.  After the code, done() has their number and the
        rest of the log."""
        return Rounds(self, log, round_of, havoc, inv)

    def loops(self, log, rules):
        """A rule for each while loop of the code in the order they are
        reached: dict(round_of=, values=, before=, inv=, havoc=) or None."""
        return Loops(self, log, rules)

    def same_maps(self, name, a, b, keys_only=False):
        """a and b agree at an arbitrary key."""
        from . import loops
        cu = cur()
        for c, out in loops.same_maps(a, b, keys_only):
            saved, savedset = list(cu.pc), set(cu.pcset)
            cu.add(c)
            self.ensure(name, out)
            cu.pc, cu.pcset = saved, savedset

    def same_members(self, name, a, b):
        self.same_maps(name, a, b, True)

    def steps(self, seq, numbers=(), maps=(), each=None):
        """The next for loop over seq (n values) changes its locals as given:
        numbers and maps are functions of the number of iterations done.
        now() is the number of the running iteration."""
        from . import loops
        return loops.Steps(self, seq, numbers, maps, each)

    def unstub(self):
        from . import loops
        loops.RULE[0] = loops.STEPS[0] = None
        del coll._heap[:]
        for o, n, old in reversed(self.undo):
            setattr(o, n, old)
        self.undo = []

    def is_int(self, x):
        if isinstance(x, SymReal):
            return SymBool(z3.IsInt(x.t))
        return isinstance(x, SymInt) or float(x).is_integer()

    def isfinite(self, x):
        if isinstance(x, SymExt):
            return SymBool(x.fin)
        return isinstance(x, Sym) or math.isfinite(float(x))

    def indices(self, n):
        return coll.rng_family(n) if isinstance(n, SymInt) else range(n)

    def index(self, data):
        return coll.index_map(data)

    @staticmethod
    def scalar(x):
        if not isinstance(x, Sym):
            x, = list(x)
        return x

    def same_law_at(self, name, draws, items, logw):
        if not draws:
            self.ensure(name + ': no draw is needed for a single item',
                        self.length(items) == 1)
            return
        self.ensure(name + ': one draw', len(draws) == 1, len(draws))
        if not isinstance(items, Family) or items.explicit():
            raise Unsupported('same_law_at')
        self.same_law(name, draws[0], items, logw)

    def same_law(self, name, draw, items, logw):
        """The draw picks item i with probability proportional to
        exp(logw(i))."""
        kind, prm, val = draw
        self.ensure(name + ': a categorical draw', kind == 'choice')
        a = prm['a']
        if isinstance(a, Family) and not a.explicit():
            fi, fa = coll.as_family(items), a
            w = prm['logw']
            if len(w.parts) == 1:
                self.family_eq(name + ': the alternatives', fa, fi)
            if len(w.parts) != 1 or not isinstance(w.parts[0], Dom):
                return self.law_by_position(name, a, fi, w, logw)
            d = w.parts[0]
            i, j = z3.Int(cur().fresh('i')), z3.Int(cur().fresh('j'))
            cu = cur()
            saved, savedset = list(cu.pc), set(cu.pcset)
            for c in coll.member_ctx(d.dom, i) + coll.member_ctx(d.dom, j):
                cu.add(c)
            (gi, wi), (gj, wj) = d.at(i), d.at(j)
            cu.add(gi)
            cu.add(gj)
            vi, vj = logw(SymInt(i)), logw(SymInt(j))
            if any(isinstance(x, SymExt) for x in (wi, wj, vi, vj)):
                (fi, wi), (fj, wj), (ei, vi), (ej, vj) = [
                    (x.fin, SymReal(x.t)) if isinstance(x, SymExt) else
                    (z3.BoolVal(True), x) for x in (wi, wj, vi, vj)]
                self.ensure(name + ': the possible alternatives',
                            SymBool(fi == ei))
                for c in (ei, ej):
                    cu.add(c)
            self.ensure_eq(name + ': the probabilities', wi - wj, vi - vj)
            cu.pc, cu.pcset = saved, savedset
            return
        items = list(items)
        a = list(a)
        self.ensure_eq(name + ': the alternatives', a, items)
        lw = prm.get('logw')
        if lw is None:
            if prm['p'] is None:
                lw = [0.] * len(a)
            else:
                lw = [sym.log(x) for x in prm['p']]
        lw = list(lw)
        for i in range(1, len(items)):
            self.ensure_eq('%s: the probabilities' % name, lw[i] - lw[0],
                           logw(items[i]) - logw(items[0]))

    def law_by_position(self, name, a, items, w, logw):
        """same_law for a sequence of several unbounded pieces; logw takes
        the position."""
        cu = cur()
        saved, savedset = list(cu.pc), set(cu.pcset)

        def at(p, start, nm):
            if isinstance(p, One):
                return start, p.value
            if p.dom.hi is None:
                raise Unsupported('law over a composite family')
            k = z3.Int(cu.fresh(nm))
            for c in coll.member_ctx(p.dom, k):
                cu.add(c)
            g, v = p.at(k)
            cu.add(g)
            return SymInt(z3.simplify(int_term(start) + k - p.dom.lo)), v
        self.ensure_eq(name + ': the number of alternatives',
                       self.length(a), self.length(items))
        self.ensure_eq(name + ': the number of probabilities',
                       self.length(w), self.length(items))
        starts = [0]
        for p in w.parts:
            starts.append(starts[-1] + Family([p]).length())
        for x, p in enumerate(w.parts):
            for y, q in enumerate(w.parts[:x + 1]):
                if x == y and isinstance(p, One):
                    continue
                (i, wi), (j, wj) = at(p, starts[x], 'i'), at(
                    q, starts[y], 'j')
                self.ensure_eq(name + ': the alternatives', a[i], items[i])
                self.ensure_eq(name + ': the probabilities', wi - wj,
                               logw(i) - logw(j))
                cu.pc, cu.pcset = list(saved), set(savedset)

    # ---- analysis
    log = staticmethod(sym.log)
    exp = staticmethod(sym.exp)
    sqrt = staticmethod(sym.sqrt)
    lgamma = staticmethod(sym.gammaln)
    cos = staticmethod(lambda x: SymReal(sym.COS(real_term(x))))
    sin = staticmethod(lambda x: SymReal(sym.SIN(real_term(x))))
    bessel0 = staticmethod(lambda x: SymReal(sym.BESI0(real_term(x))))
    normcdf = staticmethod(lambda x: SymReal(sym.NORMCDF(real_term(x))))

    @property
    def pi(self):
        return SymReal(sym.PI)

    def rng(self):
        return SymRng(self)

    def If(self, c, a, b):
        if not isinstance(c, Sym):
            return a if c else b
        return coll.merge([(bool_term(c), a), (z3.Not(bool_term(c)), b)])

    def And(self, *a):
        return SymBool(z3.And(*[bool_term(x) for x in a]))

    def Or(self, *a):
        return SymBool(z3.Or(*[bool_term(x) for x in a]))

    def Not(self, a):
        return ~a if isinstance(a, Sym) else (not a)

    def eq(self, a, b):
        return a == b

    def is_neginf(self, x):
        if isinstance(x, SymExt):
            return SymBool(z3.Not(x.fin))
        return (not is_sym(x)) and isinstance(x, float) and x == -math.inf


def is_sym(x):
    return isinstance(x, Sym)


def is_nan(x):
    return isinstance(x, float) and math.isnan(x)


class GenMemo(object):
    """gen(k) as a function of the key: fresh symbols drawn inside become
    functions of the key, and assumptions are re-added at each use."""

    def __init__(self, E, name, gen, dom):
        self.E, self.name, self.gen, self.dom = E, name, gen, dom
        self.base = None
        self.kvar = z3.Int('#g_%s' % dom.name)
        self.prime()

    def prime(self):
        p = cur()
        if self.base is None:
            sc = list(coll.scope())
            coll.scope()[:] = [self.kvar]
            mark = len(p.pc)
            savedset = set(p.pcset)
            try:
                v = self.gen(SymInt(self.kvar))
            finally:
                coll.scope()[:] = sc
            assumed = p.pc[mark:]
            del p.pc[mark:]
            p.pcset = savedset
            self.base = (v, assumed)
            if assumed:
                p.__dict__.setdefault('domfacts', {}).setdefault(
                    self.dom.key(), []).append((self.kvar, assumed))

    def __call__(self, k):
        kt = int_term(k)
        p = cur()
        v, assumed = self.base
        pairs = [(self.kvar, kt)]
        # (for a bound key they come with its membership, cf. member_ctx)
        sc = set(x.get_id() for x in coll.scope())
        if assumed and not any(x.get_id() in sc for x in sym.walk([kt])):
            for a in assumed:
                p.add(z3.substitute(a, *pairs))
        return coll.subst(v, pairs)


class Rounds(object):
    """The invariant rule for while loops (see loops.While)."""

    def __init__(self, E, log, round_of, havoc, inv, values=(), key=0,
                 before=lambda: [], solo=True):
        from . import loops
        self.E, self.log, self.round_of, self.havoc = E, log, round_of, havoc
        self.inv, self.values, self.before = inv, list(values), before
        self.dropped = E.results.setdefault('dropped rounds', {}).setdefault(
            key, set())
        self.count = 0
        if solo:
            loops.RULE[0] = self

    def take(self):
        return self

    def enter(self):
        self.E.ensure('nothing happens before the loop',
                      self.log == self.before())
        self.E.ensure('the invariant holds before the loop', self.inv(0))
        del self.log[:]
        self.count = SymInt(z3.Int(cur().fresh('rounds')))
        cur().add(self.count.t >= 0)
        self.E.assume(self.inv(self.count))
        self.havoc(self.count)

    def holds(self, a, b):
        return self.true(a == b)

    def true(self, e):
        if not isinstance(e, Sym):
            return bool(e)
        p = cur()
        return prove.prove(p, list(p.pc), bool_term(e),
                           self.E.deadline)[0] == 'proved'

    def end_of_round(self):
        self.seen = list(self.log)

    def back(self):
        # (the condition of the loop is part of the next round)
        self.log[:] = self.seen
        want = self.round_of(self.count)
        self.E.ensure('a complete iteration', self.log == want)
        self.E.ensure('the invariant is kept', self.inv(self.count + 1))
        raise sym.PathEnd()

    def done(self):
        from . import loops
        loops.RULE[0] = None
        return self.count, list(self.log)


class Loops(object):
    """A rule for each while loop of the code, in order; None unrolls one."""

    def __init__(self, E, log, rules):
        from . import loops
        self.log = log
        self.rules = [None if r is None else Rounds(
            E, log, r['round_of'], r.get('havoc', lambda m: None),
            r.get('inv', lambda m: True), r.get('values', ()), i + 1,
            r.get('before', lambda: []), False)
            for i, r in enumerate(rules)]
        self.next = 0
        loops.RULE[0] = self

    def take(self):
        self.next += 1
        if self.next > len(self.rules):
            raise Unsupported('a loop without an invariant')
        return self.rules[self.next - 1]

    def count(self, i=0):
        return self.rules[i].count

    def done(self):
        from . import loops
        loops.RULE[0] = None
        return list(self.log)


def model_dict(m):
    if m is None:
        return None
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = sym.value_of(m[d])
            if v is not None:
                out[d.name()] = v
    return out


def explore(u, max_paths=300, seconds=240):
    """Prove a unit: run it on every feasible path."""
    from . import loops
    results = dict(unit=u.id, obligations=[], lemmas=set(), stubs=set(), paths=0,
                   errors=[], used=set(), solver=0.0, covered=0)
    work = [[]]
    t0, c0 = time.time(), time.process_time()
    while work:
        if results['paths'] >= max_paths:
            results['errors'].append('more than %d paths' % max_paths)
            break
        if time.process_time() - c0 > seconds or (
                time.time() - t0 > 2 * seconds):
            results['errors'].append('time budget of %ds' % seconds)
            break
        prefix = work.pop()
        p = sym.Path(prefix)
        old = sym.set_path(p)
        E = SymE(p, results, u.id)
        E.deadline = t0 + 2 * seconds
        n0 = len(results['obligations'])
        try:
            u.fn(E)
            results['covered'] += 1
        except sym.PathEnd:
            pass
        except loops.Restart:
            results.update(obligations=[], errors=[], paths=0, covered=0)
            work = []
            p.pending = [[]]
        except Unsupported as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            results['errors'].append('unsupported: %s @ %s' % (
                ex, ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno)
                               for f in reversed(tb[-5:]))))
        except Exception as ex:
            # an exception escaping the code under contract
            tb = traceback.extract_tb(ex.__traceback__)
            feasible = prove.smt(list(p.pc), p.facts, z3.BoolVal(False),
                                 prove.Budget.z3_ms, want_model=True)
            if feasible[0] != z3.unsat:
                results['obligations'].append(dict(
                    unit=u.id, name='no unexpected exception',
                    status='failed' if feasible[0] == z3.sat else 'unknown',
                    backend='z3', seconds=0,
                    goal='%s: %s' % (type(ex).__name__, ex),
                    pc=[str(f)[:200] for f in p.pc[-12:]],
                    where=['%s:%d %s' % (f.filename, f.lineno, f.name)
                           for f in tb[-6:]],
                    model=model_dict(feasible[1])))
        finally:
            E.unstub()
            sym.set_path(old)
        results['paths'] += 1
        results['solver'] += p.solver_time
        results['used'] |= p.used
        work.extend(p.pending)
    results['seconds'] = time.time() - t0
    # vacuity: some path must have reached the end of the unit with at least
    # one obligation on it
    if not results['errors'] and (
            not results['obligations'] or not results['covered']):
        results['errors'].append('vacuous: no obligation reached')
    results.pop('dropped', None)
    results.pop('dropped rounds', None)
    results['lemmas'] = sorted(results['lemmas'])
    results['used'] = sorted(results['used'])
    results['stubs'] = sorted(results['stubs'])
    return results
