"""Discharging obligations.

Back ends, in order:
  1. algebra: both sides of an equation are rewritten to a normal form using
     the functional equations of log, exp, lgamma, sqrt and of finite sums
     (each use of a conditional equation has its side condition proved by z3),
     and the difference must cancel to 0 as a rational function (sympy);
  2. z3 (SMT), with instances of the axioms of the functions that occur;
  3. cvc5 (SMT), on the same query.
"""
import subprocess
import time

from . import deps  # noqa: F401
import sympy as sp
import z3

from . import coll, sym

STAT = {'z3': 0, 'algebra': 0, 'cvc5': 0, 'syntactic': 0}


class NormError(Exception):
    pass


class Budget(object):
    z3_ms = 8000
    side_ms = 2000


def smt(pc, facts, goal, ms, logdetail=None, want_model=False):
    """unsat of pc & facts & axioms & not goal."""
    s = z3.Solver()
    sym.limit(s, ms)
    ng = z3.Not(goal)
    everything = list(facts) + list(pc) + [ng]
    for f in everything:
        s.add(f)
    for a in sym.basic_axioms(everything):
        s.add(a)
    r = s.check()
    if r == z3.sat and want_model:
        return r, s.model()
    return r, None


_LIN = {}


def nonlinear(f):
    """Does f multiply or divide by non-constants, or quantify?"""
    i = f.get_id()
    hit = _LIN.get(i)
    if hit is not None and hit[1].eq(f):
        return hit[0]
    r = False
    for e in sym.walk([f]):
        if z3.is_quantifier(e):
            r = True
            break
        if not z3.is_app(e):
            continue
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            if sum(1 for c in e.children()
                   if not z3.is_rational_value(c)
                   and not z3.is_int_value(c)) > 1:
                r = True
                break
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
                   z3.Z3_OP_POWER):
            c = e.arg(1)
            if not (z3.is_rational_value(c) or z3.is_int_value(c)):
                r = True
                break
    _LIN[i] = (r, f)
    return r


def side_smt(pc, facts, goal):
    """A side condition: first from the linear facts alone."""
    lin = [f for f in pc if not nonlinear(f)]
    lf = [f for f in facts if not nonlinear(f)]
    r = smt(lin, lf, goal, Budget.side_ms)[0]
    if r == z3.unsat:
        return r
    if len(lin) == len(pc) and len(lf) == len(facts):
        return r
    return smt(pc, facts, goal, Budget.side_ms // 2)[0]


def lin_smt(pc, facts, goal):
    return smt([f for f in pc if not nonlinear(f)],
               [f for f in facts if not nonlinear(f)], goal,
               Budget.side_ms)[0]


def to_smt2(pc, facts, goal):
    s = z3.Solver()
    for f in list(facts) + list(pc) + [z3.Not(goal)]:
        s.add(f)
    for a in sym.basic_axioms(list(facts) + list(pc) + [z3.Not(goal)]):
        s.add(a)
    return '(set-logic ALL)\n' + s.to_smt2()


def cvc5_unsat(pc, facts, goal, seconds=10):
    try:
        p = subprocess.run(
            ['cvc5', '--lang=smt2', '--tlimit=%d' % (seconds * 1000),
             '--nl-ext-tplanes', '-'],
            input=to_smt2(pc, facts, goal), capture_output=True, text=True,
            timeout=seconds + 5)
    except (subprocess.TimeoutExpired, OSError):
        return False
    return p.stdout.strip().split('\n')[0].strip() == 'unsat'


# --------------------------------------------------------------------------

class Norm(object):
    """z3 real terms -> sympy expressions over opaque atoms."""

    def __init__(self, pc, facts, path, depth=0):
        self.pc, self.facts, self.path = list(pc), list(facts), path
        self.cache = {}
        self.atoms = {}        # sympy symbol -> description
        self.bykey = {}
        self.side = {}
        self.depth = depth
        self.z3of = {}         # sympy symbol -> z3 term
        self.queries = 0
        self.busy = False
        self.root = None

    # -- side conditions
    def holds(self, cond):
        k = cond.get_id()
        if k in self.side:
            return self.side[k][0]
        c = z3.simplify(cond)
        if z3.is_true(c):
            r = True
        elif z3.is_false(c):
            r = False
        else:
            self.queries += 1
            r = side_smt(self.pc, self.facts, c) == z3.unsat
        self.side[k] = (r, cond)
        return r

    # -- atoms
    def atom(self, key, z3term, **assume):
        s = self.bykey.get(key)
        if s is None:
            s = sp.Symbol('a%d' % len(self.bykey), real=True)
            self.bykey[key] = s
            self.atoms[s] = key
            self.z3of[s] = z3term
        return s

    def back(self, e):
        """sympy rational expression over atoms -> z3."""
        e = sp.sympify(e)
        if e.is_Symbol:
            return self.z3of[e]
        if e.is_Rational:
            return z3.RealVal('%d/%d' % (e.p, e.q))
        if e.is_Add:
            r = self.back(e.args[0])
            for a in e.args[1:]:
                r = r + self.back(a)
            return r
        if e.is_Mul:
            num, den = e.as_numer_denom()
            if den != 1:
                return self.back(num) / self.back(den)
            r = self.back(e.args[0])
            for a in e.args[1:]:
                r = r * self.back(a)
            return r
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer:
                n = int(x)
                t = self.back(b)
                r = t
                for _ in range(abs(n) - 1):
                    r = r * t
                return r if n > 0 else 1 / r
            if x.is_Rational and x.q == 2:
                t = sym.SQRT(self.back(b))
                r = t
                for _ in range(abs(int(x.p)) - 1):
                    r = r * t
                return r if x.p > 0 else 1 / r
        raise NormError('back %s' % e)

    def canon(self, e):
        return sp.cancel(sp.together(e))

    # -- conversion
    def conv(self, t):
        k = t.get_id()
        hit = self.cache.get(k)
        if hit is not None:
            return hit[0]
        r = self._conv(t)
        self.cache[k] = (r, t)
        return r

    def _conv(self, t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return sp.Rational(f.numerator, f.denominator)
        if z3.is_int_value(t):
            return sp.Integer(t.as_long())
        if z3.is_algebraic_value(t):
            raise NormError('algebraic')
        if not z3.is_app(t):
            raise NormError('not an application')
        kind = t.decl().kind()
        ch = t.children()
        if kind == z3.Z3_OP_ADD:
            return sp.Add(*[self.conv(c) for c in ch])
        if kind == z3.Z3_OP_MUL:
            return sp.Mul(*[self.conv(c) for c in ch])
        if kind == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = r - self.conv(c)
            return r
        if kind == z3.Z3_OP_UMINUS:
            return -self.conv(ch[0])
        if kind == z3.Z3_OP_DIV:
            return self.conv(ch[0]) / self.conv(ch[1])
        if kind == z3.Z3_OP_POWER:
            e = self.conv(ch[1])
            if e.is_Integer:
                return self.conv(ch[0]) ** e
            raise NormError('power')
        if kind == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if kind == z3.Z3_OP_TO_INT:
            if z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_TO_REAL:
                return self.conv(ch[0].arg(0))
            if self.holds(z3.IsInt(ch[0])):
                return self.conv(ch[0])
            return self.opaque(t)
        if kind == z3.Z3_OP_ITE:
            if self.holds(ch[0]):
                return self.conv(ch[1])
            if self.holds(z3.Not(ch[0])):
                return self.conv(ch[2])
            return self.opaque(t)
        if kind == z3.Z3_OP_UNINTERPRETED:
            name = t.decl().name()
            if name in self.path.sums:
                return self.conv_sum(t, self.path.sums[name])
            if not ch:
                return self.const(t)
            if name == 'log':
                return self.log(self.conv(ch[0]))
            if name == 'exp':
                return self.exp(self.conv(ch[0]))
            if name == 'lgamma':
                return self.lgamma(self.conv(ch[0]))
            if name == 'sqrt':
                return self.sqrt(self.conv(ch[0]))
            return self.opaque(t)
        return self.opaque(t)

    def const(self, t):
        v = self._numeral(t)
        if v is not None:
            return v
        # equal constants are unified through the path condition
        for s, z in list(self.z3of.items()):
            if z.sort() == t.sort() and z3.is_const(z) and not z.eq(t):
                key = self.atoms[s]
                if key[0] == 'const' and self._eq_in_pc(z, t):
                    return s
        return self.atom(('const', str(t)), t)

    def _numeral(self, t):
        for f in self.pc:
            if z3.is_eq(f):
                x, y = f.children()
                if y.eq(t):
                    x, y = y, x
                if x.eq(t):
                    if z3.is_int_value(y):
                        return sp.Integer(y.as_long())
                    if z3.is_rational_value(y):
                        q = y.as_fraction()
                        return sp.Rational(q.numerator, q.denominator)
        return None

    def _eq_in_pc(self, a, b):
        for f in self.pc:
            if z3.is_eq(f):
                x, y = f.children()
                if (x.eq(a) and y.eq(b)) or (x.eq(b) and y.eq(a)):
                    return True
        return False

    def opaque(self, t):
        """Congruence: arguments are compared up to provable equality."""
        ch = t.children()
        head = t.decl().sexpr() if t.decl().kind() == \
            z3.Z3_OP_UNINTERPRETED else str(t.decl())
        for key, s in list(self.bykey.items()):
            if key[0] == 'app' and key[1] == head:
                o = self.z3of[s]
                if o.num_args() == len(ch) and all(
                        self.same(a, b) for a, b in zip(ch, o.children())):
                    return s
        return self.atom(('app', head, t.sexpr()), t)

    def same(self, a, b):
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        if a.sort() == z3.RealSort():
            try:
                if self.zero(self.conv(a) - self.conv(b)):
                    return True
            except NormError:
                pass
        return self.holds(a == b)

    def zero(self, e):
        e = sp.expand(e)
        if e == 0:
            return True
        return self.canon(e) == 0

    def zt(self, e):
        return self.back(self.canon(e))

    def log(self, a):
        a = self.canon(a)
        if a == 1:
            return sp.Integer(0)
        num, den = sp.fraction(a)
        out = sp.Integer(0)
        rest = sp.Integer(1)
        sign = 1
        for part, sg in ((num, 1), (den, -1)):
            c, fl = sp.factor_list(part)
            c = sp.Rational(c)
            if c < 0:
                sign = -sign
                c = -c
            for n, m in ((c.p, 1), (c.q, -1)):
                if n != 1:
                    for prime, e in sp.factorint(n).items():
                        out += sg * m * e * self.logatom(sp.Integer(prime))
            for f, e in fl:
                key = self.atoms.get(f)
                if key is not None and key[0] == 'exp':
                    out += sg * e * key[1]
                    continue
                if key is not None and key[0] == 'sqrt':
                    out += sg * e * sp.Rational(1, 2) * self.log(key[1])
                    continue
                try:
                    zf = self.back(f)
                except NormError:
                    zf = None
                sign_f = self.sign(f, zf)
                if sign_f > 0:
                    out += sg * e * self.logatom(f)
                elif sign_f < 0:
                    if e % 2:
                        sign = -sign
                    out += sg * e * self.logatom(self.canon(-f))
                elif e % 2 == 0 and zf is not None and self.holds(zf != 0):
                    out += sg * e * self.logatom(self.absatom(f))
                else:
                    rest = rest * f ** (sg * e)
        if rest != 1:
            if sign < 0:
                rest = -rest
            out += self.logatom(self.canon(rest))
        elif sign < 0:
            out += self.logatom(sp.Integer(-1))
        return out

    def sign(self, f, zf):
        """1 / -1 when the factor is provably positive / negative, else 0."""
        if zf is None:
            return 0
        if not f.is_Symbol and not self.busy:
            self.busy = True
            try:
                for t in self.path.positives:
                    try:
                        q = self.canon(f / self.canon(self.conv(t)))
                    except NormError:
                        continue
                    if q.is_Rational:
                        return 1 if q > 0 else -1
                    if q.count_ops() <= 12:
                        z = self.back(q)
                        if self.holds(z > 0):
                            return 1
                        if self.holds(z < 0):
                            return -1
            finally:
                self.busy = False
        if self.holds(zf > 0):
            return 1
        if self.holds(zf < 0):
            return -1
        return 0

    def absatom(self, f):
        z = self.back(f)
        return self.atom(('abs', sp.srepr(f)), z3.If(z >= 0, z, -z))

    def logatom(self, f):
        f = self.canon(f)
        for key, s in list(self.bykey.items()):
            if key[0] == 'log' and key[1] == f:
                return s
        return self.atom(('log', f), sym.LOG(self.back(f)))

    def exp(self, a):
        a = sp.expand(a)
        if a == 0:
            return sp.Integer(1)
        out = sp.Integer(1)
        for term in sp.Add.make_args(a):
            c, rest = term.as_coeff_Mul()
            key = self.atoms.get(rest)
            if key is not None and key[0] == 'log' and c.is_Rational:
                f = key[1]
                if c.is_Integer:
                    out *= f ** c
                    continue
                if c.q == 2:
                    out *= self.sqrt(f) ** c.p
                    continue
            if rest == 1:
                # numeric constant
                out *= self.expatom(sp.Rational(1, c.q)) ** c.p
                continue
            rest_c = rest
            if c.is_Rational and c.is_Integer is False:
                out *= self.expatom(self.canon(rest_c / c.q)) ** c.p
            else:
                out *= self.expatom(self.canon(rest_c)) ** c
        return out

    def expatom(self, e):
        # exp(-e) = 1/exp(e): fix a sign
        if e.could_extract_minus_sign():
            return 1 / self.expatom(-e)
        for key, s in list(self.bykey.items()):
            if key[0] == 'exp' and (key[1] == e or self.zero(key[1] - e)):
                return s
        return self.atom(('exp', e), sym.EXP(self.back(e)))

    def lgamma(self, a):
        a = self.canon(a)
        for key, s in list(self.bykey.items()):
            if key[0] == 'lgamma':
                d = self.canon(a - key[1])
                if d == 0:
                    return s
                if d.is_Integer and abs(d) <= 40:
                    # lgamma(b + d) with base b = key[1]
                    b = key[1]
                    lo = b if d > 0 else a
                    if not self.holds(self.back(lo) > 0):
                        continue
                    out = s
                    if d > 0:
                        for j in range(int(d)):
                            out = out + self.log(b + j)
                    else:
                        for j in range(int(-d)):
                            out = out - self.log(a + j)
                    return out
        if not a.is_Integer and len(a.free_symbols) <= 3:
            for v in (1, 2):
                if self.eq_const(a, v):
                    return sp.Integer(0)
        if a.is_Integer and 0 < a < 30:
            out = sp.Integer(0)
            for j in range(2, int(a)):
                out += self.log(sp.Integer(j))
            return out
        return self.atom(('lgamma', a), sym.LGAMMA(self.back(a)))

    def eq_const(self, a, v):
        """a == v from the equations and linear facts of the path."""
        try:
            g = self.back(a) == v
        except NormError:
            return False
        self.queries += 1
        return lin_smt(self.pc, self.facts, g) == z3.unsat

    def sqrt(self, a):
        a = self.canon(a)
        if a.is_Rational and a >= 0:
            r = sp.sqrt(a)
            if r.is_Rational:
                return r
        num, den = sp.fraction(a)
        out = sp.Integer(1)
        rest = sp.Integer(1)
        for part, sg in ((num, 1), (den, -1)):
            c, fl = sp.factor_list(part)
            rest = rest * sp.Rational(c) ** sg
            for f, e in fl:
                if e % 2 == 0 and self.holds(self.back(f) >= 0):
                    out = out * f ** (sg * (e // 2))
                elif e > 1 and e % 2 == 1 and self.holds(self.back(f) >= 0):
                    out = out * f ** (sg * ((e - 1) // 2))
                    rest = rest * f ** sg
                else:
                    rest = rest * f ** (sg * e)
        rest = self.canon(rest)
        if rest == 1:
            return out
        for key, s in list(self.bykey.items()):
            if key[0] == 'sqrt' and key[1] == rest:
                return out * s
        return out * self.atom(('sqrt', rest), sym.SQRT(self.back(rest)))

    def reduce_sqrt(self, e):
        """s**2 -> argument for the sqrt atoms with nonnegative argument."""
        e = sp.together(e)
        num, den = sp.fraction(e)
        for key, s in list(self.bykey.items()):
            if key[0] == 'sqrt' and num.has(s):
                if not self.holds(self.back(key[1]) >= 0):
                    continue
                p = sp.Poly(sp.expand(num), s)
                r = sp.Integer(0)
                for (n,), c in p.terms():
                    r += c * key[1] ** (n // 2) * s ** (n % 2)
                num = sp.fraction(sp.together(r))[0]
        return num

    # -- finite sums
    def conv_sum(self, t, rec):
        if self.root is not None and not any(
                z3.is_const(x) and x.decl().name().startswith('#d')
                for x in sym.walk(t.children())):
            return self.root.conv_sum(t, rec)
        for f in self.pc:
            if z3.is_eq(f):
                x, y = f.children()
                if y.eq(t):
                    x, y = y, x
                if x.eq(t) and (z3.is_int_value(y) or z3.is_rational_value(y)
                                or z3.is_const(y)):
                    return self.conv(y)
        pairs = list(zip(rec['params'], t.children()))
        dom = rec['dom'].subst(pairs) if pairs else rec['dom']
        guard = z3.substitute(rec['guard'], *pairs) if pairs else rec['guard']
        body = z3.substitute(rec['body'], *pairs) if pairs else rec['body']
        r = self.sum_over(dom, rec['kvar'], guard, body)
        try:
            self.pc.append((z3.ToReal(t) if t.sort() == z3.IntSort()
                            else t) == self.back(r))
        except NormError:
            pass
        return r

    def sum_over(self, dom, kvar, guard, body):
        """Normal form of sum_{k in dom, guard} body."""
        guard = z3.simplify(guard)
        if z3.is_false(guard):
            return sp.Integer(0)
        # k != t conjuncts and (k == t) conditionals are point corrections
        conj = list(guard.children()) if z3.is_and(guard) else [guard]
        for i, c in enumerate(conj):
            t = self.point(z3.Not(c), kvar) if z3.is_not(c) or True else None
            if t is not None:
                others = [x for j, x in enumerate(conj) if j != i]
                og = z3.And(*others) if others else coll.TRUE
                full = self.sum_over(dom, kvar, og, body)
                return full - self.at_point(dom, kvar, og, body, t)
            t = self.point(c, kvar)
            if t is not None:
                others = [x for j, x in enumerate(conj) if j != i]
                og = z3.And(*others) if others else coll.TRUE
                return self.at_point(dom, kvar, og, body, t)
        site = self.find_point_ite(body, kvar)
        if site is not None:
            ite, t = site
            a = z3.substitute(body, (ite, ite.arg(1)))
            b = z3.substitute(body, (ite, ite.arg(2)))
            if self.point(ite.arg(0), kvar) is None:
                a, b = b, a
            # body = a at k == t, b elsewhere
            return (self.sum_over(dom, kvar, guard, b)
                    - self.at_point(dom, kvar, guard, b, t)
                    + self.at_point(dom, kvar, guard, a, t))
        # general conditionals: decide, else split into guarded sums
        ite = self.find_ite(body)
        if ite is not None:
            c = ite.arg(0)
            a = z3.substitute(body, (ite, ite.arg(1)))
            b = z3.substitute(body, (ite, ite.arg(2)))
            return (self.sum_over(dom, kvar, z3.And(guard, c), a)
                    + self.sum_over(dom, kvar, z3.And(guard, z3.Not(c)), b))
        if self.depth > 6:
            raise NormError('sum nesting')
        # normalise the body for a generic element
        kf = z3.Int('#d%d' % self.depth)
        pairs = [(kvar, kf)]
        inner = Norm(self.pc + coll.member_ctx(dom, kf) + [
                                z3.substitute(guard, *pairs)],
                     self.facts, self.path, self.depth + 1)
        inner.root = self.root or self
        inner.bykey, inner.atoms, inner.z3of = \
            self.bykey, self.atoms, self.z3of
        e = sp.expand(inner.conv(z3.substitute(body, *pairs)))
        self.queries += inner.queries
        dep = set(s for s in e.free_symbols if self.depends(s, kf))
        out = sp.Integer(0)
        for term in sp.Add.make_args(e):
            indep, depp = term.as_independent(*dep) if dep else (
                term, sp.Integer(1))
            out += indep * self.sumatom(dom, kf, z3.substitute(
                guard, *pairs), depp)
        return out

    def depends(self, s, kf):
        return any(x.eq(kf) for x in sym.walk([self.z3of[s]]))

    def sumatom(self, dom, kf, guard, body):
        if body == 1 and z3.is_true(z3.simplify(guard)):
            return self.conv(z3.ToReal(dom.card()))
        gkey = z3.simplify(guard).sexpr()
        for key, s in list(self.bykey.items()):
            if key[0] == 'sum' and key[1] == dom.key() and key[3] == body:
                if key[2] == gkey or self.equiv_guard(
                        dom, kf, guard, key[4]):
                    return s
        name = 'NSUM%d' % len(self.bykey)
        z = z3.Real(name)
        try:
            b = self.back(body)
            ctx = self.pc + coll.member_ctx(dom, kf) + [guard]
            self.queries += 1
            if lin_smt(ctx, self.facts, b > 0) == z3.unsat:
                self.pc.append(z >= 0)
                if z3.is_true(z3.simplify(guard)):
                    self.pc.append(z3.Implies(dom.card() > 0, z > 0))
                else:
                    self.pc.append(z3.Implies(coll.exists_term(
                        dom, kf, guard, coll.TRUE), z > 0))
            elif lin_smt(ctx, self.facts, b >= 0) == z3.unsat:
                self.pc.append(z >= 0)
        except NormError:
            pass
        return self.atom(('sum', dom.key(), gkey, body, guard), z)

    def equiv_guard(self, dom, kf, g1, g2):
        r = smt(self.pc + [dom.member(kf)], self.facts, g1 == g2,
                Budget.side_ms)[0]
        self.queries += 1
        return r == z3.unsat

    def point(self, c, kvar):
        """t if c is (kvar == t) with t free of kvar."""
        c = z3.simplify(c)
        if z3.is_eq(c):
            a, b = c.children()
            if a.eq(kvar) and not self._occurs(b, kvar):
                return b
            if b.eq(kvar) and not self._occurs(a, kvar):
                return a
            # linear: k + t == u
            if a.sort() == z3.IntSort():
                for x, y in ((a, b), (b, a)):
                    if z3.is_add(x) and not self._occurs(y, kvar):
                        ks = [u for u in x.children() if u.eq(kvar)]
                        rest = [u for u in x.children() if not u.eq(kvar)]
                        if len(ks) == 1 and not any(
                                self._occurs(u, kvar) for u in rest):
                            return y - z3.Sum(*rest)
        return None

    def _occurs(self, t, kvar):
        return any(x.eq(kvar) for x in sym.walk([t]))

    def find_ite(self, body):
        for e in sym.walk([body]):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE \
                    and e.sort() != z3.BoolSort():
                return e
        return None

    def find_point_ite(self, body, kvar):
        for e in sym.walk([body]):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                t = self.point(e.arg(0), kvar)
                if t is not None:
                    return e, t
                t = self.point(z3.Not(e.arg(0)), kvar)
                if t is not None:
                    return e, t
        return None

    def at_point(self, dom, kvar, guard, body, t):
        pairs = [(kvar, t)]
        inside = z3.simplify(z3.And(dom.member(t),
                                    z3.substitute(guard, *pairs)))
        if self.holds(inside):
            return self.conv(z3.simplify(z3.substitute(body, *pairs)))
        if self.holds(z3.Not(inside)):
            return sp.Integer(0)
        raise NormError('membership of %s undecided' % t)


def sign_known(path, cond):
    """Truth of an inequality between terms whose difference is, up to a
    provably positive factor, a term registered as positive."""
    neg = False
    while z3.is_not(cond):
        neg, cond = not neg, cond.arg(0)
    if not z3.is_app(cond):
        return None
    k = cond.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
                 z3.Z3_OP_EQ):
        return None
    a, b = cond.children()
    if a.sort() not in (z3.RealSort(), z3.IntSort()):
        return None
    n = Norm(path.pc, path.facts, path)
    try:
        d = n.canon(n.conv(a) - n.conv(b))
        if d == 0:
            return None
        qs = [n.canon(d / n.canon(n.conv(t))) for t in path.positives]
        qs.sort(key=lambda q: 0 if q.is_Rational else 1 + q.count_ops())
        for q in qs:
            if q.is_Rational:
                s = 1 if q > 0 else -1
            elif q.count_ops() > 12:
                break
            else:
                z = n.back(q)
                if n.holds(z > 0):
                    s = 1
                elif n.holds(z < 0):
                    s = -1
                else:
                    continue
            r = {z3.Z3_OP_LE: s < 0, z3.Z3_OP_LT: s < 0,
                 z3.Z3_OP_GE: s > 0, z3.Z3_OP_GT: s > 0,
                 z3.Z3_OP_EQ: False}[k]
            return r != neg
    except NormError:
        return None
    return None


def is_zero(n, e):
    e = sp.expand(e)
    if e == 0:
        return True
    e = n.reduce_sqrt(e)
    if sp.expand(e) == 0:
        return True
    return sp.cancel(e) == 0


def find_ite_any(t):
    for e in sym.walk([t]):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and \
                e.sort() != z3.BoolSort():
            return e
    return None


def algebra_eq(path, pc, a, b, deadline, depth=0):
    """Prove real equation a == b by normal forms (with case splits on
    conditionals)."""
    if time.time() > deadline or depth > 6:
        return False
    d = z3.simplify(a - b) if False else a - b
    ite = find_ite_any(d)
    if ite is not None:
        c = ite.arg(0)
        for cond, br in ((c, ite.arg(1)), (z3.Not(c), ite.arg(2))):
            if smt(pc + [cond], path.facts, z3.BoolVal(False),
                   Budget.side_ms)[0] == z3.unsat:
                continue
            a2 = z3.substitute(a, (ite, br))
            b2 = z3.substitute(b, (ite, br))
            if not algebra_eq(path, pc + [cond], a2, b2, deadline,
                              depth + 1):
                return False
        return True
    n = Norm(pc, path.facts, path)
    try:
        e = n.conv(b)
        e = n.conv(a) - e
        return bool(is_zero(n, e))
    except NormError:
        return False
    except Exception as ex:      # sympy limits
        if isinstance(ex, (RecursionError,)) or 'sympy' in type(
                ex).__module__:
            return False
        raise


def prove(path, pc, goal, deadline=None):
    """-> (status, backend, model) with status in proved/failed/unknown."""
    t0 = time.time()
    deadline = deadline or (t0 + 60)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'syntactic', None
    if any(f.eq(g) for f in pc):
        return 'proved', 'syntactic', None
    if z3.is_and(goal):
        back = 'syntactic'
        for c in goal.children():
            st, bk, m = prove(path, pc, c, deadline)
            if st != 'proved':
                return st, bk, m
            if bk != 'syntactic':
                back = bk
        return 'proved', back, None
    if z3.is_implies(goal):
        return prove(path, pc + [goal.arg(0)], goal.arg(1), deadline)
    # a quick SMT attempt
    r, m = smt(pc, path.facts, g, 1500, want_model=True)
    if r == z3.unsat:
        return 'proved', 'z3', None
    model = m
    if z3.is_eq(goal) and goal.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
        a, b = goal.children()
        if goal.arg(0).sort() == z3.IntSort():
            a, b = z3.ToReal(a), z3.ToReal(b)
        if algebra_eq(path, pc, a, b, deadline):
            return 'proved', 'algebra', None
    r, m = smt(pc, path.facts, g, Budget.z3_ms, want_model=True)
    if r == z3.unsat:
        return 'proved', 'z3', None
    if m is not None:
        model = m
    if time.time() < deadline and r == z3.unknown:
        if cvc5_unsat(pc, path.facts, g):
            return 'proved', 'cvc5', None
    return ('failed' if r == z3.sat else 'unknown'), 'z3', model
