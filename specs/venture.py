"""C32: components written in VentureScript drive the interpreter rightly.

Venture itself is absent: a stand-in for its `ripl` keeps the directives it is
given (observations, predictions, assumptions), which the components must keep
in step with the rows they hold."""
import base64
import json
import math
import re
import sys
import types

from vf.spec import Stub, bounded, unit

V = 'cgpm.venturescript.vscgpm'
I = 'cgpm.venturescript.vsinline'
VS = V + ':VsCGpm'
VI = I + ':InlineVsCGpm'
VE = (ValueError,)
ANY = (Exception,)
BOUND = 'up to 3 outputs, 2 inputs and 12 operations on up to 4 rows; a ' \
        'stand-in for the interpreter'


def venture_package():
    if 'venture' in sys.modules:
        return
    v = sys.modules['venture'] = types.ModuleType('venture')
    s = sys.modules['venture.shortcuts'] = types.ModuleType(
        'venture.shortcuts')
    v.__path__ = []
    v.shortcuts = s
    s.make_lite_ripl = lambda seed=None, **k: Ripl(seed)


def meant(text):
    return Ripl.names[text] if text in Ripl.names else float(text)


class Ripl(object):
    """A table of directives by label, and the order of what happened."""
    size = (1, 0)                # outputs and inputs of the next program
    names = {}                   # the values of texts that stand for one
    fresh = None                 # a source of values, if not the default

    def __init__(self, seed=None):
        self.seed = seed
        self.outs, self.ins = Ripl.size
        self.directives, self.log, self.mode = {}, [], None
        self.made, self.n = 0, 0

    def set_mode(self, mode):
        self.mode = mode

    def execute_program(self, text):
        self.log.append(('execute', self.mode, text))

    def load_plugin(self, name):
        self.log.append(('plugin', name))

    def evaluate(self, text):
        t = text.replace('(', ' ( ').replace(')', ' ) ').split()
        if t == ['(', 'size', 'inputs', ')']:
            return self.ins
        if t == ['(', 'size', 'observers', ')']:
            return self.outs
        if t[:4] == ['(', '(', 'lookup', 'observers'] and t[5] == ')' \
                and t[-1] == ')' and t[-2].startswith("'"):
            args = [meant(x) for x in t[6:-2]]
            self.put(t[-2][1:], ('observe', int(t[4]), args[:-1], args[-1]))
            return None
        if len(t) == 3 and t[0] == '(' and t[2] == ')':
            self.log.append(('make', t[1]))
            return None
        raise AssertionError('unknown expression %r' % (text,))

    def put(self, label, d):
        if label in self.directives:
            raise AssertionError('label used twice')
        self.directives[label] = d
        self.log.append(d)

    def sample(self, text):
        if text == 'simulators':
            return [None] * self.outs
        t = text.replace('(', ' ( ').replace(')', ' ) ').replace(
            ',', ' ').split()
        assert t[1] == '(' and t[-1] == ')', text
        self.log.append(('sample', t[0], [meant(x) for x in t[2:-1]]))
        self.n += 1
        return self.n * .25 if Ripl.fresh is None else Ripl.fresh(self.n)

    def predict(self, text, label=None):
        t = text.replace('(', ' ( ').replace(')', ' ) ').split()
        assert t[:4] == ['(', '(', 'lookup', 'simulators'], text
        assert t[5] == ')' and t[-1] == ')', text
        self.n += 1
        v = self.n * .5 if Ripl.fresh is None else Ripl.fresh(self.n)
        args = [meant(x) for x in t[6:-1]]
        self.put(label, ('predict', int(t[4]), args, v))
        return v

    def assume(self, name, text, label=None):
        self.put(label, ('assume', name, text))

    def observe(self, text, value, label=None):
        t = text.replace('(', ' ( ').replace(')', ' ) ').replace(
            ',', ' ').split()
        assert t[1] == '(' and t[-1] == ')', text
        self.n += 1
        self.put(label, ('observe', t[0], [meant(x) for x in t[2:-1]],
                         value))
        return [self.n * -.125 if Ripl.fresh is None else Ripl.fresh(
            -self.n)]

    def forget(self, label):
        if label not in self.directives:
            raise AssertionError('forgets what is not there')
        self.log.append(('forget', self.directives.pop(label)))

    def infer(self, text):
        seen = [d for d in self.directives.values() if d[0] == 'observe']
        self.log.append(('infer', ' '.join(text.split()),
                         seen if Ripl.names else sorted(seen)))

    def saves(self):
        if Ripl.names:
            Ripl.kept = (dict(self.directives), self.outs, self.ins)
            return b'kept'
        return repr((self.directives, self.outs, self.ins)).encode('ascii')

    def loads(self, text):
        if Ripl.names:
            assert text in (b'kept', 'kept'), text
            self.directives, self.outs, self.ins = Ripl.kept
            return
        self.directives, self.outs, self.ins = eval(
            text if isinstance(text, str) else text.decode('ascii'))

    def held(self):
        return sorted(self.directives.values())


venture_package()


def component(E, **kw):
    r = E.r
    names = [int(v) for v in r.permutation(12)]
    k, m = int(r.randint(1, 4)), int(r.randint(0, 3))
    outs, ins = names[:k], names[k:k + m]
    Ripl.size = (k, m)
    c = E.get(VS)(outputs=list(outs), inputs=list(ins), rng=E.rng(),
                  source='program', **kw)
    return c, outs, ins


def number(E):
    return round(float(E.r.normal()), 4)


class Held(object):
    """What the component must hold: the inputs and cells of each row."""

    def __init__(self, outs, ins):
        self.outs, self.ins, self.rows = outs, ins, {}

    def directives(self, extra=()):
        d = []
        for r, (inp, cells) in list(self.rows.items()) + list(extra):
            for q, x in cells.items():
                d.append(('observe', self.outs.index(q),
                          [float(r)] + [inp[i] for i in self.ins], x))
        return sorted(d)


def cells_of(E, vs, some=True):
    return dict((v, number(E)) for v in vs if not some or E.r.randint(2))


def incorporate(E, c, H):
    r = int(E.r.randint(4))
    old = H.rows.get(r)
    inp = cells_of(E, H.ins, False)
    new = cells_of(E, H.outs)
    fault = None
    if old:
        new = dict((q, x) for q, x in new.items() if q not in old[1])
        inp = E.choice('inputs', [None, dict(old[0])])
    if not new:
        fault = 'no observation'
    kind = int(E.r.randint(8))
    if not fault and kind == 0 and old:
        q = sorted(old[1])[0]
        new[q] = number(E)
        fault = 'an observed cell'
    elif not fault and kind == 1:
        new[99] = 1.
        fault = 'an unknown variable'
    elif not fault and kind == 2:
        new[sorted(new)[0]] = float('nan')
        fault = 'a missing value'
    elif not fault and kind == 3 and H.ins:
        inp = dict(old[0] if old else inp)
        inp[H.ins[0]] = inp[H.ins[0]] + 1 if old else float('nan')
        fault = 'wrong inputs'
    elif not fault and kind == 4 and len(H.ins) > (1 if old else 0):
        inp = dict((i, (old[0] if old else inp)[i]) for i in H.ins[1:])
        fault = 'too few inputs'
    E.note('incorporate', (r, new, inp))
    if fault:
        E.raises(VE, lambda: c.incorporate(r, new, inp),
                 'rejected: ' + fault)
        return
    c.incorporate(r, dict(new), inp)
    if old:
        old[1].update(new)
    else:
        H.rows[r] = (dict(inp), dict(new))


def unincorporate(E, c, H):
    r = int(E.r.randint(5))
    E.note('unincorporate', r)
    if r not in H.rows:
        E.raises(VE, lambda: c.unincorporate(r), 'a row not held')
        return
    c.unincorporate(r)
    del H.rows[r]


def simulate(E, c, H):
    r = int(E.choice('row', sorted(H.rows) + [-1, 0, 1, 2, 3]))
    old = H.rows.get(r)
    vs = [int(v) for v in E.r.permutation(H.outs)]
    k = int(E.r.randint(1, len(vs) + 1))
    t = vs[:k]
    free = [v for v in vs[k:] if not old or v not in old[1]]
    given = cells_of(E, free)
    inp = dict(old[0]) if old else cells_of(E, H.ins, False)
    pass_in = inp if not old else E.choice('inputs', [None, inp])
    N = E.choice('N', [None, None, 1, 2])
    kind = int(E.r.randint(8))
    fault = None
    g, i_, t_ = dict(given), pass_in, list(t)
    if kind == 0:
        g[t[0]] = 1.
        fault = 'targets among the constraints'
    elif kind == 1:
        t_ = t + [99]
        fault = 'an unknown target'
    elif kind == 2:
        g[99] = 1.
        fault = 'an unknown constraint'
    elif kind == 3 and given:
        g[sorted(g)[0]] = float('nan')
        fault = 'a missing value'
    elif kind == 4 and H.ins:
        i_ = dict(inp)
        i_[H.ins[0]] = inp[H.ins[0]] + 1 if old else float('nan')
        fault = 'wrong inputs'
    elif kind == 5 and len(H.ins) > 1:
        i_ = dict((i, inp[i]) for i in H.ins[1:])
        fault = 'too few inputs'
    elif kind == 6 and H.ins and not old:
        i_ = E.choice('none', [None, {}])
        fault = 'no inputs'
    E.note('simulate', (r, t_, g, i_, N))
    if fault:
        E.raises(VE, lambda: c.simulate(r, t_, g, i_), 'rejected: ' + fault)
        return
    mark = len(c.ripl.log)
    got = c.simulate(r, t, dict(given) or None, pass_in, *(
        () if N is None else (N,)))
    log = c.ripl.log[mark:]
    E.ensure('one sample, or N of them', isinstance(got, dict)
             if N is None else len(got) == N)
    samples = [got] if N is None else got
    p = [d for d in log if d[0] == 'predict']
    args = [float(r)] + [inp[i] for i in H.ins]
    E.ensure('each target is predicted once a sample, with the row and '
             'inputs', sorted(d[1] for d in p) == sorted(
                 [H.outs.index(q) for q in t] * len(samples))
             and all(d[2] == args for d in p))
    by = dict(((d[1], d[3]), 1) for d in p)
    E.ensure('samples are the predictions', all(
        set(s) == set(t) and all((H.outs.index(q), s[q]) in by for q in t)
        for s in samples))
    E.ensure('samples are different predictions', len(set(
        v for s in samples for v in s.values())) == len(p))
    want = H.directives([(r, (inp, given))])
    if given:
        i = log.index(p[0])
        before = [d for d in log[:i] if d[0] == 'infer']
        E.ensure('the constraints are conditioned on before predicting',
                 len(before) >= 1 and before[-1][2] == want)
        E.ensure('in the scope of the row', '(atom %d)' % r
                 in before[-1][1])


def same_rows(E, c, H, what):
    E.ensure('%s: the interpreter holds the cells of the rows' % what,
             c.ripl.held() == H.directives())


@bounded('C32', 'histories', [
    VS + '.incorporate', VS + '.unincorporate', VS + '.simulate',
    VS + '._observe_cell', VS + '._predict_cell', VS + '._forget_cell',
    VS + '._gen_label', VS + '._validate_incorporate',
    VS + '._validate_simulate', VS + '._check_matched_inputs'], trials=300,
         bound=BOUND)
def _(E):
    """The interpreter observes exactly the cells held; a sample leaves no
    trace."""
    c, outs, ins = component(E)
    H = Held(outs, ins)
    for i in range(E.int('operations', lo=1, hi=13)):
        op = E.choice('op', [incorporate, incorporate, unincorporate,
                             simulate, simulate])
        op(E, c, H)
        same_rows(E, c, H, op.__name__)
    for r in sorted(H.rows):
        c.unincorporate(r)
    E.ensure('nothing is left', c.ripl.held() == [])


@bounded('C32', 'saved', [VS + '.to_metadata', VS + '.from_metadata',
                          VS + '._obs_to_json', VS + '._obs_from_json'],
         trials=120, bound=BOUND)
def _(E):
    """A saved component goes on as the original would."""
    c, outs, ins = component(E)
    H = Held(outs, ins)
    for i in range(E.int('operations', lo=1, hi=8)):
        incorporate(E, c, H)
    md = c.to_metadata()
    if sys.version_info[0] > 2:
        md['binary'] = md['binary'].decode('ascii')
    text = json.dumps(md)
    E.ensure('saving changes nothing', c.ripl.held() == H.directives())
    md = json.loads(text)
    d = E.get(VS).from_metadata(md, rng=E.rng())
    E.ensure('the variables', (d.outputs, d.inputs) == (outs, ins))
    E.ensure('the program is not made again', not any(
        x[0] == 'make' for x in d.ripl.log))
    for i in range(E.int('more', lo=1, hi=6)):
        op = E.choice('op', [incorporate, unincorporate, simulate])
        op(E, d, H)
        same_rows(E, d, H, op.__name__)
    for r in sorted(H.rows):
        d.unincorporate(r)
    E.ensure('nothing is left', d.ripl.held() == [])


@bounded('C32', 'program', [VS + '.__init__', VS + '.transition'],
         trials=80, bound='up to 3 outputs and 2 inputs')
def _(E):
    """The program is run in its mode, then made; its sizes must agree."""
    mode = E.choice('mode', [None, 'venture_script'])
    sp = E.choice('sp', [None, 'make_other'])
    plug = E.choice('plugins', [None, 'one.py', 'one.py, two.py'])
    kw = dict((k, v) for k, v in (('mode', mode), ('plugins', plug)) if v)
    if sp:
        kw['sp'] = sp
    c, outs, ins = component(E, **kw)
    log = c.ripl.log
    E.ensure('the program, in its mode', [d for d in log if d[0] == 'execute']
             == [('execute', mode or 'church_prime', 'program')])
    E.ensure('the plugins', [d[1] for d in log if d[0] == 'plugin'] == [
        p.strip() for p in plug.split(',')] if plug else True)
    E.ensure('made once, after the program', [d[1] for d in log if d[0]
             == 'make'] == [sp or 'make_cgpm'] and log[-1][0] == 'make')
    E.ensure('the mode of the queries', c.ripl.mode == 'church_prime')
    n = E.choice('N', [None, 1, 4])
    c.transition(N=n)
    E.ensure('steps of the program', log[-1][:2] == (
        'infer', '(transition %d)' % (n or 1)))
    c.transition(program='steps')
    E.ensure('or another program', log[-1] == ('execute', 'church_prime',
                                               'steps'))
    cls = E.get(VS)
    k, m = len(outs), len(ins)

    def make(o, i):
        Ripl.size = (k, m)
        return cls(outputs=o, inputs=i, rng=E.rng(), source='program')
    E.raises(VE, lambda: make(outs + outs[:1], ins), 'an output twice')
    E.raises(VE, lambda: make(outs, ins + [50, 50]), 'an input twice')
    E.raises(VE, lambda: make(outs, ins + outs[:1]), 'an output as input')
    E.raises(VE, lambda: make(outs + [50], ins), 'too many outputs')
    E.raises(VE, lambda: make(outs, ins + [50]), 'too many inputs')
    if m:
        E.raises(VE, lambda: make(outs, ins[1:]), 'too few inputs')


# --------------------------------------------------------------------------
# Inline components: one expression.

def inline(E):
    n = int(E.r.randint(0, 3))
    names = [int(v) for v in E.r.permutation(9)[:n + 1]]
    args = ','.join('abc'[:n])
    text = E.choice('expression', [
        '(%s) ~> {normal(0, 1)}', ' ( %s )  ~>  { normal(0,1) }\n'])
    text = text % args
    return E.get(VI)(outputs=names[:1], inputs=names[1:], rng=E.rng(),
                     expression=text), names[0], names[1:], text


@bounded('C32', 'inline', [VI + '.logpdf', VI + '.simulate', VI + '.__init__',
                           VI + '._retrieve_args', VI + '.to_metadata',
                           VI + '.from_metadata'], trials=120,
         bound='up to 2 inputs; a stand-in for the interpreter')
def _(E):
    """The expression is sampled and scored at the inputs, and no directive
    stays behind."""
    c, o, ins, text = inline(E)
    if E.flag('saved'):
        c = E.get(VI).from_metadata(json.loads(json.dumps(c.to_metadata())),
                                    rng=E.rng())
    inp = cells_of(E, ins, False)
    given = inp if ins else E.choice('inputs', [None, {}])
    args = [inp[i] for i in ins]
    for i in range(2):
        mark = len(c.ripl.log)
        x = number(E)
        lp = c.logpdf(E.choice('row', [None, -1, 3]), {o: x}, None, given)
        d = c.ripl.log[mark:]
        E.ensure('the expression is used', ('assume', 'expr', text) in d)
        E.ensure('scored at the inputs', ('observe', 'expr', args, x) in d)
        E.ensure('the density is what observing reports',
                 lp == c.ripl.n * -.125)
        E.ensure('scoring leaves nothing', c.ripl.held() == [])
        mark = len(c.ripl.log)
        N = E.choice('N', [None, 1, 3])
        s = c.simulate(-1, [o], None, given, *(() if N is None else (N,)))
        d = c.ripl.log[mark:]
        E.ensure('sampled at the inputs, once a sample', [
            q for q in d if q[0] == 'sample'] == [
                ('sample', 'expr', args)] * (N or 1))
        ss = [s] if N is None else s
        E.ensure('each sample its own', len(ss) == (N or 1) and len(set(
            q[o] for q in ss)) == len(ss) and all(set(q) == set([o])
                                                  for q in ss))
        E.ensure('sampling leaves nothing', c.ripl.held() == [])
    if ins:
        E.raises(ANY, lambda: c.logpdf(-1, {o: 1.}, None, {}), 'no inputs')
        E.raises(ANY, lambda: c.simulate(-1, [o], None, {}), 'no inputs')
    E.raises(ANY, lambda: c.logpdf(-1, {o: 1.}, {o: 1.}, given),
             'constraints')
    E.raises(ANY, lambda: c.simulate(-1, [77], None, given),
             'another variable')


@bounded('C32', 'inline/reject', [VI + '.__init__', VI
                                  + '._validate_expression_concrete'],
         trials=20, bound='up to 3 inputs')
def _(E):
    cls = E.get(VI)
    make = lambda o, i, t: cls(outputs=o, inputs=i, rng=E.rng(),
                               expression=t)
    t = '(a, b) ~> {normal(a, b)}'
    E.raises(ANY, lambda: make([0, 1], [2, 3], t), 'two outputs')
    E.raises(ANY, lambda: make([], [2, 3], t), 'no output')
    E.raises(VE, lambda: make([0], [2, 2], t), 'an input twice')
    E.raises(VE, lambda: make([0], [0, 2], t), 'an output as input')
    E.raises(VE, lambda: make([0], [1, 2], None), 'no expression')
    E.raises(ANY, lambda: make([0], [1], t), 'too few inputs')
    E.raises(ANY, lambda: make([0], [1, 2, 3], t), 'too many inputs')


# --------------------------------------------------------------------------
# One operation on a component which holds arbitrary values.

SHAPES = ((1, 0), (2, 1), (3, 2))
OUTS, INS = (7, 3, 5), (9, 1)
ROW, OTHER = 4, 2


class Some(object):
    """A component of k outputs and m inputs which holds some cells of a row
    and of another; the values are arbitrary."""

    def __init__(self, E, k, m, held=None):
        self.E = E
        self.outs, self.ins = list(OUTS[:k]), list(INS[:m])
        Ripl.size, Ripl.names = (k, m), {'none': None}
        E.stub('cgpm.venturescript.vscgpm:VsCGpm._gen_label',
               lambda c, n=[0]: n.__setitem__(0, n[0] + 1) or 'l%d' % n[0])
        Ripl.fresh = lambda n: self.real('sample%d' % n)
        self.made = []
        rng = E.rng()
        if E.symbolic:             # only seeds the interpreter
            rng = Stub()
            rng.randint = lambda lo, hi: lo
        self.c = E.get(VS)(outputs=list(self.outs), inputs=list(self.ins),
                           rng=rng, source='program')
        self.rows = {}
        for r in (OTHER, ROW):
            subs = self.subsets(self.outs)
            which = E.choice('cells held of row %d' % r, subs if r == ROW
                             else [subs[-1]]) if held is None else held
            if which:
                inp = self.values('i%d' % r, self.ins)
                cells = self.values('x%d' % r, which)
                self.rows[r] = (inp, dict(cells))
                self.c.incorporate(r, dict(cells), dict(inp))
        self.agree('cells put in')

    def real(self, name):
        x = self.E.real(name)
        Ripl.names[str(x)] = x
        return x

    def values(self, name, vs):
        return dict((v, self.real('%s_%d' % (name, v))) for v in vs)

    @staticmethod
    def subsets(vs):
        r = [[]]
        for v in vs:
            r = r + [x + [v] for x in r]
        return r

    def match(self, what, got, want):
        """The same directives in any order."""
        E = self.E
        E.ensure(what + ': as many', len(got) == len(want))
        for w in want:
            same = [g for g in got if g[:2] == w[:2]
                    and g[2][0] == w[2][0]]
            E.ensure(what + ': one for the cell', len(same) == 1)
            for g in same:
                E.ensure(what + ': given the row and all inputs',
                         len(g[2]) == len(w[2]))
                for a, b in zip(g[2], w[2]):
                    E.ensure_eq(what + ': the inputs of the row in order', a,
                                b)
                if w[3] is not None:
                    E.ensure_eq(what + ': the value', g[3], w[3])

    def observed(self, extra=None):
        rows = dict(self.rows)
        if extra:
            r, inp, cells = extra
            rows[r] = (inp, dict(rows.get(r, ({}, {}))[1], **{}))
            rows[r][1].update(cells)
        return [('observe', self.outs.index(q), [float(r)] + [
            inp[i] for i in self.ins], x) for r, (inp, cells) in rows.items()
            for q, x in cells.items()]

    def agree(self, what):
        self.match('after ' + what + ' the interpreter observes the cells '
                   'held', list(self.c.ripl.directives.values()),
                   self.observed())

    def inputs(self, name='i'):
        """The inputs of the row, and how they may be given."""
        E = self.E
        if ROW in self.rows:
            inp = self.rows[ROW][0]
            return inp, E.choice('inputs given', [None, {}, dict(inp)])
        inp = self.values(name, self.ins)
        return inp, dict(inp) if self.ins else E.choice(
            'inputs given', [None, {}])

    def nothing_left(self):
        for r in sorted(self.rows):
            self.c.unincorporate(r)
        self.E.ensure('nothing is left after the rows are taken out',
                      not self.c.ripl.directives)

    def close(self):
        Ripl.names, Ripl.fresh = {}, None


def over_shapes(name, targets):
    def put(f):
        for k, m in SHAPES:
            def g(E, k=k, m=m):
                try:
                    f(E, k, m)
                finally:
                    Ripl.names, Ripl.fresh = {}, None
            g.__doc__ = f.__doc__
            unit('C32', '%s/%d outputs, %d inputs' % (name, k, m), targets,
                 trials=40)(g)
    return put


@over_shapes('incorporate', [
    VS + '.incorporate', VS + '._observe_cell', VS + '._validate_incorporate',
    VS + '._check_matched_inputs'])
def _(E, k, m):
    """New cells of a row, held or not, are observed at its inputs."""
    W = Some(E, k, m)
    old = W.rows.get(ROW, ({}, {}))[1]
    free = [q for q in W.outs if q not in old]
    inp, given = W.inputs()
    if not free:
        q = W.values('y', [W.outs[0]])
        E.raises(VE, lambda: W.c.incorporate(ROW, q, given),
                 'a cell held is not observed twice')
        W.agree('a refused row')
        return
    new = W.values('y', E.choice('new cells', W.subsets(free)[1:]))
    W.c.incorporate(ROW, dict(new), given)
    W.rows[ROW] = (inp, dict(old, **{}))
    W.rows[ROW][1].update(new)
    W.agree('incorporate')
    W.nothing_left()


@over_shapes('incorporate/refuse', [
    VS + '.incorporate', VS + '._validate_incorporate',
    VS + '._check_matched_inputs'])
def _(E, k, m):
    """A row that cannot be held leaves the component as it was."""
    W = Some(E, k, m)
    old = W.rows.get(ROW, ({}, {}))[1]
    free = [q for q in W.outs if q not in old]
    inp, given = W.inputs()
    new = W.values('y', free)
    why = E.choice('fault', ['nothing', 'unknown', 'held', 'inputs', 'few'])
    if why == 'nothing':
        new = {}
    elif why == 'unknown':
        new[99] = W.real('z')
    elif why == 'held':
        E.assume(len(old) > 0)
        new[sorted(old)[0]] = W.real('z')
    elif why == 'inputs':
        E.assume(m > 0 and bool(old) and bool(free))
        given = dict(inp)
        i = E.choice('which', W.ins)
        given[i] = W.real('z')
        E.assume(E.Not(E.eq(given[i], inp[i])))
    else:
        E.assume(m > 0 and bool(free))
        given = dict(inp)
        del given[E.choice('which', W.ins)]
        if not given and old:
            given = {99: W.real('z')}
    E.raises(VE, lambda: W.c.incorporate(ROW, new, given), 'rejected')
    W.agree('a refused row')
    W.nothing_left()


@over_shapes('unincorporate', [VS + '.unincorporate', VS + '._forget_cell'])
def _(E, k, m):
    """The cells of the row are forgotten, those of the others are not."""
    W = Some(E, k, m)
    if ROW in W.rows:
        W.c.unincorporate(ROW)
        del W.rows[ROW]
        W.agree('unincorporate')
    E.raises(VE, lambda: W.c.unincorporate(ROW), 'a row not held')
    W.agree('a refused row')
    inp, x = W.values('j', W.ins), W.values('y', W.outs)
    W.c.incorporate(ROW, dict(x), dict(inp))
    W.rows[ROW] = (inp, x)
    W.agree('a row put in again')
    W.nothing_left()


@over_shapes('simulate', [VS + '.simulate', VS + '._predict_cell',
                          VS + '._observe_cell', VS + '._forget_cell',
                          VS + '._validate_simulate',
                          VS + '._check_matched_inputs'])
def _(E, k, m):
    """Each target is predicted at the inputs of the row while exactly the
    cells held and given are observed, and nothing else changes."""
    W = Some(E, k, m)
    old = W.rows.get(ROW, ({}, {}))[1]
    t = E.choice('targets', W.subsets(W.outs)[1:] if k < 3 else [
        [W.outs[1]], [W.outs[2], W.outs[0]]])
    free = [q for q in W.outs if q not in old and q not in t]
    g = W.values('g', E.choice('given', W.subsets(free)))
    inp, given = W.inputs()
    N = E.choice('N', [None, 2])
    mark = len(W.c.ripl.log)
    got = W.c.simulate(ROW, list(t), E.choice('none', [None, {}])
                       if not g else dict(g), given, *(
                           () if N is None else (N,)))
    log = W.c.ripl.log[mark:]
    E.ensure('one sample, or N of them', isinstance(got, dict)
             if N is None else len(got) == N)
    got = [got] if N is None else list(got)
    p = [d for d in log if d[0] == 'predict']
    args = [float(ROW)] + [inp[i] for i in W.ins]
    E.ensure('each target is predicted once a sample', len(p) == len(
        got) * len(t))
    for j, s in enumerate(got):
        E.ensure('a value for each target', set(s) == set(t))
        W.match('predicted', p[j * len(t):(j + 1) * len(t)], [
            ('predict', W.outs.index(q), args, s[q]) for q in t])
    if g:
        runs = [d for d in log if d[0] == 'infer']
        E.ensure('inference is run for each sample', len(runs) == len(got))
        for d in runs:
            E.ensure('in the scope of the row', '(atom %d)' % ROW in d[1])
            W.match('cells held and given are conditioned on', d[2],
                    W.observed((ROW, inp, g)))
        first = log.index(p[0])
        E.ensure('before predicting', any(d[0] == 'infer'
                                          for d in log[:first]))
    W.agree('simulate')
    W.nothing_left()


@over_shapes('saved', [VS + '.to_metadata', VS + '.from_metadata',
                       VS + '._obs_to_json', VS + '._obs_from_json'])
def _(E, k, m):
    """What is saved and read back goes on holding the cells."""
    W = Some(E, k, m)
    md = W.c.to_metadata()
    W.agree('saving')
    E.ensure('the variables are saved in order', (
        list(md['outputs']), list(md['inputs'])) == (W.outs, W.ins))
    if sys.version_info[0] > 2:
        md['binary'] = md['binary'].decode('ascii')
    W.c = E.get(VS).from_metadata(md, rng=W.c.rng)
    E.ensure('the variables', (list(W.c.outputs), list(W.c.inputs)) == (
        W.outs, W.ins))
    W.agree('reading')
    old = W.rows.get(ROW, ({}, {}))[1]
    free = [q for q in W.outs if q not in old]
    inp, given = W.inputs()
    if old:
        E.raises(VE, lambda: W.c.incorporate(ROW, W.values('z', [
            sorted(old)[0]]), given), 'a cell held is not observed twice')
    if free:
        new = W.values('y', free)
        W.c.incorporate(ROW, dict(new), given)
        W.rows[ROW] = (inp, dict(old, **{}))
        W.rows[ROW][1].update(new)
        W.agree('incorporate')
    W.nothing_left()


@over_shapes('simulate/refuse', [VS + '.simulate', VS + '._validate_simulate',
                                 VS + '._check_matched_inputs'])
def _(E, k, m):
    """A query that makes no sense leaves the component as it was."""
    W = Some(E, k, m)
    old = W.rows.get(ROW, ({}, {}))[1]
    inp, given = W.inputs()
    t, g = [W.outs[0]], {}
    why = E.choice('fault', ['target', 'given', 'both', 'held', 'inputs',
                             'few', 'more'])
    if why == 'target':
        t = t + [99]
    elif why == 'given':
        g[99] = W.real('z')
    elif why == 'both':
        g[t[0]] = W.real('z')
    elif why == 'held':
        E.assume(k > 1 and W.outs[1] in old)
        g[W.outs[1]] = W.real('z')
    elif why == 'inputs':
        E.assume(m > 0 and bool(old))
        given = dict(inp)
        i = E.choice('which', W.ins)
        given[i] = W.real('z')
        E.assume(E.Not(E.eq(given[i], inp[i])))
    elif why == 'few':
        E.assume(m > 0)
        given = dict(inp)
        del given[E.choice('which', W.ins)]
        E.assume(bool(given) or not old)
    else:
        given = dict(inp)
        given[99] = W.real('z')
    E.raises(VE, lambda: W.c.simulate(ROW, t, g, given), 'rejected')
    W.agree('a refused query')
    W.nothing_left()


for _m in (0, 1, 2, 3):
    def _f(E, m=_m):
        """The expression is scored and sampled at arbitrary inputs."""
        try:
            names, seen = list(INS + (8,))[:m], {}

            def real(name):
                x = E.real(name)
                Ripl.names[str(x)] = x
                return x

            def fresh(n):
                seen[n] = E.real('value%d' % (n % 100))
                return seen[n]
            Ripl.names, Ripl.fresh = {'none': None}, fresh
            rng = E.rng()
            if E.symbolic:
                rng = Stub()
                rng.randint = lambda lo, hi: lo
            text = '(%s) ~> {normal(0, 1)}' % ', '.join('abc'[:m])
            c = E.get(VI)(outputs=[6], inputs=list(names), rng=rng,
                          expression=text)
            inp = dict((v, real('i%d' % v)) for v in reversed(names))
            x = real('x')
            given = dict(inp) if m else E.choice('inputs', [None, {}])
            args = [inp[v] for v in names]
            for k in range(2):
                mark = len(c.ripl.log)
                lp = c.logpdf(-1, {6: x}, None, given)
                d = c.ripl.log[mark:]
                E.ensure('the expression is scored once', [
                    q[:2] for q in d if q[0] == 'observe'] == [
                        ('observe', 'expr')])
                q, = [q for q in d if q[0] == 'observe']
                E.ensure_eq('at the value', q[3], x)
                E.ensure('at the inputs', len(q[2]) == m)
                for a, b in zip(q[2], args):
                    E.ensure_eq('at the inputs in their order', a, b)
                E.ensure_eq('the density is what observing reports', lp,
                            seen[-c.ripl.n])
                E.ensure('the expression is the one given',
                         ('assume', 'expr', text) in d)
                mark = len(c.ripl.log)
                s = c.simulate(-1, [6], None, given)
                d = c.ripl.log[mark:]
                E.ensure('the expression is sampled once', [
                    q[:2] for q in d if q[0] == 'sample'] == [
                        ('sample', 'expr')])
                q, = [q for q in d if q[0] == 'sample']
                E.ensure('at the inputs', len(q[2]) == m)
                for a, b in zip(q[2], args):
                    E.ensure_eq('at the inputs in their order', a, b)
                E.ensure('a value for the output', list(s) == [6])
                E.ensure_eq('the sample', s[6], seen[c.ripl.n])
                E.ensure('nothing stays behind', not c.ripl.directives)
        finally:
            Ripl.names, Ripl.fresh = {}, None
    unit('C32', 'inline/%d inputs' % _m, [
        VI + '.logpdf', VI + '.simulate', VI + '._retrieve_args',
        VI + '.__init__'], trials=20)(_f)
