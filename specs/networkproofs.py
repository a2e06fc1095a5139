"""C20, C21: importance queries of a network, proved over the contracts of its
models."""
from specs.contracts import draw_contracts
from vf.spec import unit, Stub

IN = 'cgpm.network.importance:ImportanceNetwork'
VE = (ValueError,)


class World(Stub):
    """Models in a topological order, of a query: position(v) is the place of
    the model of v in the order."""

    def __init__(self, E):
        self.E = E
        self.n = E.size('models', lo=0)
        place = E.func('place', sort='int')
        if not E.symbolic:
            n = self.n
            place = lambda v, p=place: p(v) % n if n else 0
        self.place = place
        self.value = E.func('value')
        self.T = E.map('T', self.value, keys=None if E.symbolic or self.n
                       else [])
        self.R = E.map('R', self.value, keys=None if E.symbolic or self.n
                       else [])
        self.C = E.map('C', E.func('given'))
        self.label = E.func('label', sort='int')
        self.weight = E.func('weight')
        self.prefix = E.func('prefix')


def net_of(E, W):
    net = E.bare(E.get(IN))
    net.rng = E.rng()
    net.accuracy = 1
    return net


@unit('C21', 'weighted_sample', [IN + '.weighted_sample'], trials=60)
def _(E):
    """The models are run in topological order, each once, each given what
    was set before it; the weights add up."""
    W = World(E)
    net = net_of(E, W)
    T, R, C = W.T, W.R, W.C
    if E.symbolic:
        E.assume_each(T, lambda v: E.And(
            E.Not(E.has(C, v)), E.Not(E.has(R, v)),
            W.place(v) >= 0, W.place(v) < W.n))
        E.assume_each(R, lambda v: E.And(
            E.Not(E.has(C, v)), W.place(v) >= 0, W.place(v) < W.n))
    else:
        R = dict((k, R[k]) for k in R if k not in T)
        C = dict((k, C[k]) for k in C if k not in T and k not in R)
    every = E.pairs(T) + E.pairs(R)

    def upto(i):
        """What is set after i models."""
        return E.dict(E.pairs(C) + E.mapped(
            lambda t: t, E.filtered(lambda t: W.place(t[0]) < i, every)))
    net.topo = E.table('topo', W.n, W.label)

    class Models(Stub):
        def __getitem__(self, l):
            return l
    net.cgpms = Models()
    targets = E.keys(T)
    constraints = E.copy(C)
    inputs = Stub()
    rowid = E.int('rowid')
    ran = []
    if E.symbolic:
        E.assume(W.prefix(0) == 0)
    else:
        tot = [0.]
        for i in range(W.n):
            tot.append(tot[-1] + W.weight(i))
        W.prefix = lambda i: tot[i]

    def required(t, c):
        E.same_members('the required inputs of the targets', t, T)
        E.same_maps('the required inputs given the constraints', c, C)
        return E.keys(R)
    E.replace(net, 'retrieve_required_inputs', required)

    def invoke(r, cgpm, t, c, given):
        i = S.now()
        ran.append(i)
        E.ensure_eq('the model of its turn', cgpm, W.label(i))
        E.ensure_eq('the row', r, rowid)
        E.ensure('the inputs', given is inputs)
        E.same_members('the targets and the required inputs', t,
                       E.keys(T) + E.keys(R))
        E.same_maps('what was set before', c, upto(i))
        if E.symbolic:
            E.assume(W.prefix(i + 1) == W.prefix(i) + W.weight(i))
        return E.dict(E.filtered(lambda t: E.eq(W.place(t[0]), i),
                                 every)), W.weight(i)
    E.replace(net, 'invoke_cgpm', invoke)
    S = E.steps(net.topo, [lambda i: W.prefix(i)], [upto],
                lambda i: E.ensure('one run of a model', len(ran) == 1))
    sample, weight = net.weighted_sample(rowid, targets, constraints, inputs)
    if not E.symbolic:
        E.ensure('each model once', ran == list(range(W.n)))
    E.same_maps('the sample', sample, upto(W.n))
    E.ensure_eq('the weight', weight, W.prefix(W.n))
    E.same_maps('the constraints are kept', constraints, C)


class Model(Stub):
    """A model of arbitrarily many outputs and inputs."""

    def __init__(self, E, O, I, log):
        self.E, self.O, self.I, self.log = E, O, I, log
        self.outputs, self.inputs = E.keys(O), E.keys(I)
        self.lp, self.drawn = E.real('lp'), Stub()

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        self.log.append(('logpdf', rowid, targets, constraints, inputs))
        return self.lp

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        self.E.ensure('one sample', N is None)
        self.log.append(('simulate', rowid, targets, constraints, inputs))
        return self.drawn


@unit('C21', 'invoke_cgpm', [IN + '.invoke_cgpm'], trials=200)
def _(E):
    """A model is scored on the constraints of its outputs and sampled at its
    targets, given its inputs (what is set wins over what is given)."""
    O, I = E.map('O', lambda v: 0), E.map('I', lambda v: 0)
    T = E.map('T', lambda v: 0)
    given, fixed = E.func('given'), E.func('fixed')
    U, C = E.map('U', given), E.map('C', fixed)
    if E.symbolic:
        E.assume_each(I, lambda v: E.And(
            E.Not(E.has(O, v)), E.Or(E.has(U, v), E.has(C, v))))
        E.assume_each(T, lambda v: E.Not(E.has(C, v)))
    else:
        T = dict((v, 0) for v in T if v not in C)
        I = dict((v, 0) for v in I if v not in O and (v in U or v in C))
    log = []
    m = Model(E, O, I, log)
    net = net_of(E, None)
    rowid = E.int('rowid')
    given_c, given_u = E.copy(C), E.copy(U)
    sample, weight = net.invoke_cgpm(rowid, m, E.keys(T), given_c, given_u)
    E.same_maps('the constraints are kept', given_c, C)
    E.same_maps('the inputs are kept', given_u, U)
    mine = E.submap(C, lambda v: E.has(O, v), fixed)
    query = E.submap(T, lambda v: E.has(O, v))
    ins = E.dict(E.filtered(lambda t: E.has(I, t[0]),
                            E.pairs(U) + E.pairs(C)))

    def asked(e):
        E.ensure_eq('the row', e[1], rowid)
        E.same_maps('the inputs of the model', e[4], ins)
    scored = [e for e in log if e[0] == 'logpdf']
    drawn = [e for e in log if e[0] == 'simulate']
    if E.truth(E.length(mine) >= 1):
        E.ensure('the constraints are scored once', len(scored) == 1)
        asked(scored[0])
        E.same_maps('the constraints of the model', scored[0][2], mine)
        E.ensure('given nothing else', not scored[0][3])
        E.ensure_eq('the weight', weight, m.lp)
    else:
        E.ensure('nothing to score', not scored)
        E.ensure_eq('no weight', weight, 0)
    if E.truth(E.length(query) >= 1):
        E.ensure('the targets are drawn once', len(drawn) == 1)
        asked(drawn[0])
        E.same_members('the targets of the model', drawn[0][2], query)
        E.same_maps('given its constraints', drawn[0][3], mine)
        E.ensure('the sample', sample is m.drawn)
    else:
        E.ensure('nothing is drawn', not drawn and len(sample) == 0)


@unit('C21', 'invoke_cgpm/missing input', [IN + '.invoke_cgpm'], trials=100)
def _(E):
    """A model that is used must have all its inputs."""
    O, I = E.map('O', lambda v: 0), E.map('I', lambda v: 0)
    T, C = E.map('T', lambda v: 0), E.map('C', E.func('fixed'))
    U = E.map('U', E.func('given'))
    if not E.symbolic:
        I = dict((v, 0) for v in I if v not in O)
    gap = E.pick('gap', I)
    E.assume(gap not in U)
    E.assume(gap not in C)
    v = E.pick('used', O)
    if E.flag('scored'):
        E.assume(v in C)
    else:
        E.assume(v in T)
    m = Model(E, O, I, [])
    net = net_of(E, None)
    E.raises((AssertionError, ValueError), lambda: net.invoke_cgpm(
        0, m, E.keys(T), C, U), 'an input is missing')
    E.ensure('the model is not asked', not m.log)


class Drawn(Stub):
    """One weighted sample."""

    def __init__(self, tag, value):
        self.tag, self.value = tag, value

    def __getitem__(self, q):
        return self.value(self.tag, q)

    def _vf_subst(self, pairs):
        from vf import coll
        return Drawn(coll.subst(self.tag, pairs), self.value)


class Samples(object):
    """weighted_sample as an arbitrary sequence of weighted samples: the i-th
    is value(i, .), of weight weight(i)."""

    def __init__(self, E, net, name, asked, finite=True):
        self.E, self.name, self.asked = E, name, asked
        self.w, self.fin = E.func('weight'), E.func('finite', sort='int')
        self.finite = finite
        self.value = E.func('value')

    def weight(self, i):
        if self.finite is None:
            return -float('inf')
        return self.w(i) if self.finite else self.E.may(
            self.fin(i), self.w(i))

    def __call__(self, rowid, targets, constraints, inputs):
        self.asked(rowid, targets, constraints, inputs)
        i = self.E.occasion(self.name)
        return Drawn(i, self.value), self.weight(i)

    def weights(self, n):
        return self.E.mapped(self.weight, self.E.indices(n))


def optional(E, name, keys):
    """None, or a dict of some keys."""
    if E.flag('no ' + name):
        return None
    return E.dict([(E.int(k), E.real('x')) for k in keys])


for _k in ('likely', 'maybe', 'never'):
    @unit('C21', 'simulate/' + _k, [IN + '.simulate'], trials=60)
    def _(E, k=_k):
        """One of the weighted samples, with probability proportional to its
        weight, restricted to the targets; an error when no sample has a
        positive weight."""
        draw_contracts(E)
        net = net_of(E, None)
        n = net.accuracy = E.size('accuracy', lo=1)
        T = E.map('T', lambda v: 0)
        targets = E.keys(T)
        C, U = optional(E, 'constraints', 'cd'), optional(E, 'inputs', 'u')
        rowid = E.int('rowid')

        def asked(r, t, cc, u):
            E.ensure_eq('the row', r, rowid)
            E.same_members('the targets', t, T)
            E.same_maps('the constraints', cc, E.dict([]) if C is None else C)
            E.same_maps('the inputs', u, E.dict([]) if U is None else U)
        ws = Samples(E, net, 'sample', asked,
                     {'likely': True, 'maybe': False, 'never': None}[k])
        net.weighted_sample = ws
        if k == 'never':
            E.raises(VE, lambda: net.simulate(rowid, targets, C, U),
                     'no sample is possible')
            return
        if k == 'maybe':
            sure = E.pick('sure', E.upto(n))
            E.assume(ws.fin(sure) > 0)
        got = net.simulate(rowid, targets, C, U)
        draws = net.rng.draws
        E.ensure('at most one draw', len(draws) <= 1)
        if draws:
            index = draws[0][2]
            E.same_law('the sample', draws[0], E.indices(n), ws.weight)
        else:
            E.ensure('a single sample', n == 1)
            index = 0
        E.same_maps('the values of one sample', got, E.map_over(
            T, lambda q: ws.value(index, q)))


@unit('C21', 'logpdf', [IN + '.logpdf'], trials=60)
def _(E):
    """Log of the mean weight of targets and constraints, less log of the
    mean weight of the constraints."""
    net = net_of(E, None)
    n = net.accuracy = E.size('accuracy', lo=1)
    t = E.int('t')
    Q = E.dict([(t, E.real('q'))])
    C, U = optional(E, 'constraints', 'cd'), optional(E, 'inputs', 'u')
    given = E.dict([]) if C is None else E.copy(C)
    E.assume(E.Not(E.has(given, t)))
    rowid = E.int('rowid')

    def common(r, targets, u):
        E.ensure_eq('the row', r, rowid)
        E.ensure('no targets', len(targets) == 0)
        E.same_maps('the inputs', u, E.dict([]) if U is None else U)

    def joint_asked(r, targets, cc, u):
        common(r, targets, u)
        E.same_maps('targets and constraints', cc,
               E.dict(E.pairs(given) + E.pairs(Q)))

    def marg_asked(r, targets, cc, u):
        common(r, targets, u)
        E.same_maps('the constraints', cc, given)
    never = C is not None and E.flag('never')
    joint = Samples(E, net, 'joint', joint_asked)
    marg = Samples(E, net, 'marginal', marg_asked, None if never else True)

    def ws(r, targets, cc, u):
        return (joint if E.truth(E.has(cc, t)) else marg)(r, targets, cc, u)
    net.weighted_sample = ws
    if never:
        E.raises(VE, lambda: net.logpdf(rowid, Q, C, U),
                 'the constraints are impossible')
        return
    lme = E.get('cgpm.utils.general:logmeanexp')
    got = net.logpdf(rowid, Q, C, U)
    want = lme(joint.weights(n))
    if C is not None:
        want = want - lme(marg.weights(n))
    E.ensure_eq('the log of the ratio of the means', got, want)


class Named(Stub):
    """Models by label: model l has the outputs {v: out(v) == l} and the
    inputs {v: isin(l, v) > 0} among the variables V."""

    def __init__(self, E, on_use):
        self.E, self.on_use = E, on_use
        self.V = E.map('V', lambda v: 0)
        self.out = E.func('out', sort='int')
        self.isin = E.func('isin', sort='int')

    def outputs(self, l):
        return self.E.filtered(lambda v: self.E.eq(self.out(v), l),
                               self.E.keys(self.V))

    def inputs(self, l):
        return self.E.filtered(lambda v: self.isin(l, v) > 0,
                               self.E.keys(self.V))

    def __getitem__(self, l):
        self.on_use(l)
        m = Stub()
        m.outputs, m.inputs = self.outputs(l), self.inputs(l)
        return m


for _f in ('method', 'function'):
    @unit('C20', 'required inputs/unbounded/' + _f, [
        IN + '.retrieve_required_inputs' if _f == 'method' else
        'cgpm.network.helpers:retrieve_required_inputs'], trials=100)
    def _(E, f=_f):
        """Going up from the last model: the inputs of each model of which
        an output is a target, is given, or is required; except those that
        are targets, given, or not the output of a model."""
        n = E.size('models', lo=0)
        label = E.func('label', sort='int')
        if not E.symbolic:
            order = list(range(n))
            E.r.shuffle(order)
            label = lambda i: order[i]
        topo = E.table('topo', n, label)
        T, C = E.map('T', lambda v: 0), E.map('C', lambda v: 0)
        X = E.map('X', lambda v: 0)
        first, active = E.func('first', sort='int'), E.func(
            'active', sort='int')

        def use(l):
            """What it means that the model of this step is active, and that
            a variable is first required by it."""
            if not E.symbolic:
                return
            i = S.now()
            E.ensure_eq('the models from the last to the first', l,
                        label(n - 1 - i))
            E.assume_each(W.V, lambda v: E.eq(first(v), i) == E.And(
                active(i) > 0, W.isin(l, v) > 0, E.Not(first(v) < i)))
            known = upto(i)
            E.assume((active(i) > 0) == E.any(E.mapped(
                lambda v: v in known or v in C, W.outputs(l))))
        W = Named(E, use)
        if E.symbolic:
            E.assume_each(W.V, lambda v: first(v) >= 0)
        else:
            m = max(n, 1)
            out, isin = {}, {}
            for v in W.V:
                out[v] = int(E.r.randint(m))
                for l in range(m):
                    isin[l, v] = int(E.r.randint(3) == 0)
            W.out, W.isin = lambda v: out[v], lambda l, v: isin[l, v]
            req = set(T)
            when = {}
            for i, l in enumerate(reversed(order)):
                if any(v in req or v in C for v in W.outputs(l)):
                    for v in W.inputs(l):
                        when.setdefault(v, i)
                        req.add(v)
            first = lambda v: when.get(v, n)

        def upto(i):
            return E.keyset(T) | E.keyset(E.submap(
                W.V, lambda v: first(v) < i))
        S = E.steps(topo, [], [upto])
        targets, given, extra = E.keys(T), E.copy(C), E.keys(X)
        if f == 'method':
            net = net_of(E, None)
            net.topo, net.cgpms, net.extraneous = topo, W, extra
            got = net.retrieve_required_inputs(targets, given)
        else:
            got = E.get('cgpm.network.helpers:retrieve_required_inputs')(
                W, topo, targets, given, extra)
        E.same_members('the required inputs', got, E.submap(
            W.V, lambda v: E.And(first(v) < n, E.Not(E.has(T, v)),
                                 E.Not(E.has(C, v)), E.Not(E.has(X, v)))))
        E.same_maps('the constraints are kept', given, C)


H = 'cgpm.network.helpers'


def models(E, k):
    """k models of arbitrarily many outputs and inputs, no output shared."""
    V = E.map('V', lambda v: 0)
    owner = E.func('owner', sort='int')
    if not E.symbolic:
        f, own = owner, {}
        owner = lambda v: own.setdefault(v, abs(f(v)) % (k + 1) - 1)
        V = dict((v, 0) for v in V)
    ms = []
    for j in range(k):
        m = Stub()
        m.outputs = E.filtered(lambda v, j=j: E.eq(owner(v), j), E.keys(V))
        m.inputs = E.keys(E.map('I%d' % j, lambda v: 0))
        ms.append(m)
    return ms, V, owner


for _k in (0, 1, 2, 3):
    @unit('C20', 'variables/%d models' % _k, [
        H + ':retrieve_variable_to_cgpm'], trials=60)
    def _(E, k=_k):
        """A variable belongs to the model of which it is an output."""
        ms, V, owner = models(E, k)
        got = E.get(H + ':retrieve_variable_to_cgpm')(ms)
        E.same_maps('the model of a variable', got, E.submap(
            V, lambda v: E.And(owner(v) >= 0, owner(v) < k), owner))

    @unit('C20', 'extraneous/%d models' % _k, [
        H + ':retrieve_extraneous_inputs'], trials=60)
    def _(E, k=_k):
        """The inputs that are not the output of a model."""
        ms, V, owner = models(E, k)
        v_to_c = E.get(H + ':retrieve_variable_to_cgpm')(ms)
        got = E.get(H + ':retrieve_extraneous_inputs')(ms, v_to_c)
        v = E.int('v')
        E.ensure_eq('an extraneous input', v in got, E.And(
            any(v in m.inputs for m in ms), not E.truth(E.And(
                E.has(V, v), owner(v) >= 0, owner(v) < k))))

    @unit('C20', 'validation/%d models' % _k, [H + ':validate_cgpms'],
          trials=80)
    def _(E, k=_k):
        """Every model has an output, and no two share one."""
        ms, O = [], []
        for j in range(k):
            m = Stub()
            O.append(E.map('O%d' % j, lambda v: 0))
            m.outputs = E.keys(O[j])
            ms.append(m)
        f = E.get(H + ':validate_cgpms')
        bad = any(E.truth(E.eq(E.length(o), 0)) for o in O) or any(
            E.any(E.mapped(lambda v: E.has(O[i], v), ms[j].outputs))
            for i in range(k) for j in range(i))
        if bad:
            E.raises(VE, lambda: f(ms), 'an invalid collection')
        else:
            E.ensure('a valid collection', f(ms) is ms)


for _k in (0, 1, 2):
    @unit('C20', 'parents/%d models' % _k, [
        H + ':retrieve_adjacency_list', H + ':retrieve_variable_to_cgpm'],
        trials=60)
    def _(E, k=_k):
        """The parents of a model are the models with an output among its
        inputs."""
        ms, V, owner = models(E, k)
        v_to_c = E.get(H + ':retrieve_variable_to_cgpm')(ms)
        got = E.get(H + ':retrieve_adjacency_list')(ms, v_to_c)
        E.ensure('an entry for each model', sorted(got) == list(range(k)))
        for i in range(k):
            for j in range(k):
                E.ensure_eq('a parent', E.truth(
                    E.any(E.mapped(lambda p: E.eq(p, j), got[i]))), E.any(
                    E.mapped(lambda v: E.And(E.has(V, v), E.eq(owner(v), j)),
                             ms[i].inputs)))
            E.forall('only models are parents', got[i],
                     lambda p: E.And(p >= 0, p < k))
