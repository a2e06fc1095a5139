"""C20: structure of a network of cgpms; C21: importance queries on it, and
composite CrossCat states."""
import itertools
import math

import numpy as np

from specs import exactlaw, mixlib
from specs.mixlib import St, same
from vf.spec import unit, bounded

H = 'cgpm.network.helpers'
IN = 'cgpm.network.importance:ImportanceNetwork'
S = 'cgpm.crosscat.state:State'
VE = (ValueError,)
INF = float('inf')


class Node(object):
    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = list(outputs), list(inputs)

    def __repr__(self):
        return '%r -> %r' % (self.inputs, self.outputs)


def random_nodes(E, n=None, cyclic=False, outer=True):
    """Nodes in a random order, over variables with scattered names; a root
    input that no node models is allowed (extraneous)."""
    r = E.r
    n = int(r.randint(1, 6)) if n is None else n
    names = [int(x) for x in r.permutation(60)]
    outs = [[names.pop() for _ in range(int(r.randint(1, 4)))]
            for _ in range(n)]
    ext = [names.pop() for _ in range(2)] if outer else []
    nodes = []
    for i in range(n):
        pool = [v for o in outs[:i] for v in o]
        ins = [v for v in pool if r.randint(3) == 0]
        ins += [v for v in ext if r.randint(4) == 0]
        if len(ins) > 4:
            ins = ins[:4]
        nodes.append(Node(outs[i], [int(x) for x in r.permutation(ins)]))
    if cyclic and n > 1:
        a, b = sorted(int(x) for x in r.choice(n, size=2, replace=False))
        nodes[b].inputs = nodes[b].inputs + [nodes[a].outputs[0]]
        nodes[a].inputs = nodes[a].inputs + [nodes[b].outputs[0]]
    nodes = [nodes[i] for i in r.permutation(n)]
    E.note('network', [repr(x) for x in nodes])
    return nodes


def parents(nodes):
    """[(index of parent, index of child)]"""
    where = dict((v, i) for i, x in enumerate(nodes) for v in x.outputs)
    return where, set((where[v], i) for i, x in enumerate(nodes)
                      for v in x.inputs if v in where)


NB = 'networks of up to 5 models with up to 3 outputs'


@bounded('C20', 'structure', [
    H + ':' + f for f in ('retrieve_variable_to_cgpm',
                          'retrieve_adjacency_list',
                          'retrieve_adjacency_matrix',
                          'retrieve_extraneous_inputs')],
    trials=200, bound=NB)
def _(E):
    h = E.mod(H)
    nodes = random_nodes(E)
    where, edges = parents(nodes)
    v2c = h.retrieve_variable_to_cgpm(nodes)
    E.ensure_eq('every output is mapped to its model', dict(v2c), where)
    adj = h.retrieve_adjacency_list(nodes, v2c)
    E.ensure('every model is listed with its parents',
             set(adj) == set(range(len(nodes))) and all(
                 sorted(adj[i]) == sorted(a for a, b in edges if b == i)
                 for i in adj), adj)
    m = np.asarray(h.retrieve_adjacency_matrix(nodes, v2c))
    E.ensure('the matrix has the edges parent -> child',
             m.shape == (len(nodes),) * 2 and all(
                 m[a, b] == ((a, b) in edges) for a in range(len(nodes))
                 for b in range(len(nodes))), m)
    ext = h.retrieve_extraneous_inputs(nodes, v2c)
    E.ensure('extraneous inputs are those no model outputs',
             set(ext) == set(v for x in nodes for v in x.inputs
                             if v not in where), ext)


@bounded('C20', 'reachability', [
    H + ':retrieve_ancestors', H + ':retrieve_descendents',
    H + ':retrieve_weakly_connected_components'], trials=200, bound=NB)
def _(E):
    h = E.mod(H)
    nodes = random_nodes(E)
    where, edges = parents(nodes)

    def up(v):
        out = set()
        todo = [v]
        while todo:
            x = todo.pop()
            for p in (nodes[where[x]].inputs if x in where else []):
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out
    every = sorted(where)
    for q in every:
        E.ensure('ancestors of %d' % q,
                 set(h.retrieve_ancestors(nodes, q)) == up(q))
        E.ensure('descendents of %d' % q,
                 set(h.retrieve_descendents(nodes, q))
                 == set(v for v in every if q in up(v)))
    E.raises(VE, lambda: h.retrieve_ancestors(nodes, 1000), 'unknown')
    E.raises(VE, lambda: h.retrieve_descendents(nodes, 1000), 'unknown')
    lab = list(h.retrieve_weakly_connected_components(nodes))
    comp = list(range(len(nodes)))
    for _ in nodes:
        for a, b in edges:
            k = min(comp[a], comp[b])
            comp[a] = comp[b] = k
    E.ensure('weakly connected components', exactlaw.canon(lab)
             == exactlaw.canon(comp), (lab, comp))


def check_order(E, name, order, nodes):
    E.ensure(name, sorted(order) == sorted(nodes) and all(
        order.index(p) < order.index(c)
        for c, ps in nodes.items() for p in ps if p in nodes), order)


@bounded('C20', 'topological order', [H + ':topological_sort'], trials=200,
         bound='graphs of up to 7 nodes; all graphs of up to 3 nodes')
def _(E):
    h = E.mod(H)
    n = int(E.r.randint(1, 8))
    ids = [int(x) for x in E.r.permutation(30)[:n]]
    g = dict((ids[i], [ids[j] for j in range(i) if E.r.randint(2)]
              + ([99] if E.r.randint(5) == 0 else [])) for i in range(n))
    items = [(k, g[k]) for k in [ids[i] for i in E.r.permutation(n)]]
    before = repr(items)
    arg = E.choice('arg', ['list', 'dict'])
    arg = list(items) if arg == 'list' else dict(items)
    E.note('graph', items)
    check_order(E, 'every node once, after its parents',
                list(h.topological_sort(arg)), g)
    E.ensure('the graph is kept', dict(arg) == g and repr(items) == before)
    # a cycle anywhere
    a = ids[E.r.randint(n)]
    up = set([a])
    for _ in ids:
        up |= set(p for c in list(up) for p in g.get(c, ()) if p in g)
    b = E.choice('back', sorted(up))
    h2 = dict((k, list(v)) for k, v in g.items())
    h2[b] = h2[b] + [a]
    E.note('cyclic graph', h2)
    E.raises(VE, lambda: h.topological_sort(h2), 'a cycle')


@bounded('C20', 'topological order/small', [H + ':topological_sort'],
         trials=1, bound='all graphs of up to 3 nodes')
def _(E):
    h = E.mod(H)
    for n in (1, 2, 3):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        for bits in itertools.product([0, 1], repeat=len(pairs)):
            g = dict((i, []) for i in range(n))
            for (a, b), x in zip(pairs, bits):
                if x:
                    g[b].append(a)
            acyclic = any(all(p.index(a) < p.index(b)
                              for b in g for a in g[b])
                          for p in itertools.permutations(range(n)))
            if acyclic:
                check_order(E, 'order %r' % g, list(h.topological_sort(g)), g)
            else:
                E.raises(VE, lambda: h.topological_sort(g), 'cycle %r' % g)


@bounded('C20', 'validation', [H + ':validate_cgpms', IN + '.__init__'],
         trials=100, bound=NB)
def _(E):
    h = E.mod(H)
    nodes = random_nodes(E)
    E.ensure('disjoint outputs are accepted',
             list(h.validate_cgpms(nodes)) == nodes)
    net = E.get(IN)(list(nodes), rng=E.rng())
    where, edges = parents(nodes)
    check_order(E, 'the network is ordered', list(net.topo), dict(
        (i, [a for a, b in edges if b == i]) for i in range(len(nodes))))
    E.ensure_eq('the accuracy defaults to one', net.accuracy, 1)
    bad = Node([901, nodes[0].outputs[-1]], [])
    at = int(E.r.randint(len(nodes) + 1))
    E.raises(VE, lambda: h.validate_cgpms(nodes[:at] + [bad] + nodes[at:]),
             'a variable with two models')
    E.raises(VE, lambda: h.validate_cgpms(
        nodes[:at] + [Node([], [])] + nodes[at:]), 'a model of nothing')
    if len(nodes) > 1:
        cyc = random_nodes(E, cyclic=True, n=int(E.r.randint(2, 5)))
        E.raises(VE, lambda: E.get(IN)(cyc, rng=E.rng()), 'a cycle')


@bounded('C20', 'required inputs', [
    H + ':retrieve_required_inputs', IN + '.retrieve_required_inputs'],
    trials=200, bound=NB)
def _(E):
    h = E.mod(H)
    nodes = random_nodes(E)
    where, edges = parents(nodes)
    net = E.get(IN)(list(nodes), rng=E.rng())
    vs = [int(v) for v in E.r.permutation(sorted(where))]
    t = [v for v in vs if E.r.randint(4) == 0]
    c = dict((v, 0) for v in vs if v not in t and E.r.randint(4) == 0)
    E.note('query', (t, c))
    # an input of a model with a queried, constrained or required output
    need = set(t)
    while True:
        more = set(v for x in nodes if any(
            o in need or o in c for o in x.outputs) for v in x.inputs)
        if more <= need:
            break
        need |= more
    want = set(v for v in need if v not in t and v not in c and v in where)
    got = list(net.retrieve_required_inputs(list(t), dict(c)))
    E.ensure('the variables needed to answer a query', set(got) == want
             and len(got) == len(set(got)), (got, want))
    got = list(h.retrieve_required_inputs(
        nodes, net.topo, list(t), dict(c), net.extraneous))
    E.ensure('the variables needed to answer a query (helper)',
             set(got) == want and len(got) == len(set(got)), (got, want))


# --------------------------------------------------------------------------
# C21.

class Cpt(object):
    """A binary conditional probability table over its outputs, for any value
    of its inputs; some entries are zero."""

    def __init__(self, outputs, inputs, seed, rng, zeros=.15):
        self.outputs, self.inputs = list(outputs), list(inputs)
        self.seed, self.rng, self.zeros = seed, rng, zeros
        self.cache = {}

    def __deepcopy__(self, memo):
        return self

    def table(self, inputs):
        key = tuple(int(inputs[i]) for i in self.inputs)
        if key not in self.cache:
            r = np.random.RandomState((self.seed * 7919 + sum(
                (k + 3) * 31 ** j for j, k in enumerate(key))) % 2 ** 31)
            n = 2 ** len(self.outputs)
            p = r.dirichlet([1.] * n)
            p[r.uniform(size=n) < self.zeros] = 0
            p[r.randint(n)] += .2
            p = p / p.sum()
            keys = itertools.product([0, 1], repeat=len(self.outputs))
            self.cache[key] = list(zip(keys, p))
        return self.cache[key]

    def mass(self, cells, inputs):
        j = dict((c, self.outputs.index(c)) for c in cells)
        return sum(p for k, p in self.table(inputs)
                   if all(k[j[c]] == cells[c] for c in cells))

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        constraints = constraints or {}
        assert set(self.inputs) == set(inputs), 'exactly the inputs'
        assert targets and set(targets) <= set(self.outputs)
        assert set(constraints) <= set(self.outputs)
        d = self.mass(constraints, inputs)
        n = self.mass(dict(constraints, **{}) if not targets else dict(
            list(constraints.items()) + list(targets.items())), inputs)
        return math.log(n / d) if n > 0 and d > 0 else -INF

    def simulate(self, rowid, targets, constraints=None, inputs=None,
                 N=None):
        if N is not None:
            return [self.simulate(rowid, targets, constraints, inputs)
                    for _ in range(N)]
        constraints = constraints or {}
        assert set(self.inputs) == set(inputs), 'exactly the inputs'
        assert targets and set(targets) <= set(self.outputs)
        assert not set(targets) & set(constraints)
        if self.mass(constraints, inputs) <= 0:
            constraints = {}
        t = [(k, p) for k, p in self.table(inputs) if all(
            k[self.outputs.index(c)] == constraints[c] for c in constraints)]
        tot = sum(p for k, p in t)
        k = t[self.rng.choice(len(t), p=[p / tot for _, p in t])][0]
        return dict((c, k[self.outputs.index(c)]) for c in targets)


def network(E, nodes, seeds, rng, acc=None):
    return E.get(IN)([Cpt(x.outputs, x.inputs, s, rng)
                      for x, s in zip(nodes, seeds)], acc, rng=rng)


def joint(nodes, seeds, cells, outer):
    """P(cells) of the network, the other variables summed out."""
    where, _ = parents(nodes)
    vs = sorted(where)
    free = [v for v in vs if v not in cells]
    cpts = [Cpt(x.outputs, x.inputs, s, None)
            for x, s in zip(nodes, seeds)]
    tot = 0.
    for xs in itertools.product([0, 1], repeat=len(free)):
        a = dict(outer)
        a.update(cells)
        a.update(zip(free, xs))
        p = 1.
        for c in cpts:
            p *= c.mass(dict((v, a[v]) for v in c.outputs),
                        dict((v, a[v]) for v in c.inputs))
            if not p:
                break
        tot += p
    return tot


def small(E):
    r = E.r
    while True:
        nodes = random_nodes(E, n=int(r.randint(1, 5)))
        where, _ = parents(nodes)
        if len(where) <= 7:
            break
    seeds = [int(r.randint(10 ** 6)) for _ in nodes]
    outer = dict((v, int(r.randint(2))) for x in nodes for v in x.inputs
                 if v not in where)
    vs = [int(v) for v in r.permutation(sorted(where))]
    t = [v for v in vs if r.randint(3) == 0] or vs[:1]
    c = dict((v, int(r.randint(2))) for v in vs
             if v not in t and r.randint(3) == 0)
    E.note('query', (t, c, outer))
    return nodes, seeds, outer, t, c


def weighted_law(E, nodes, seeds, outer, t, c, limit=6000):
    def run(rng):
        s, w = network(E, nodes, seeds, rng).weighted_sample(
            None, list(t), dict(c), dict(outer))
        return tuple(sorted((k, int(x)) for k, x in s.items())), float(w)
    return exactlaw.law(run, limit)


NW = 'networks of up to 4 binary tables with up to 7 variables; the exact ' \
     'law by enumeration'


@bounded('C21', 'weighted sample', [
    IN + '.weighted_sample', IN + '.invoke_cgpm',
    IN + '.retrieve_required_inputs'], trials=100, bound=NW)
def _(E):
    nodes, seeds, outer, t, c = small(E)
    try:
        W = weighted_law(E, nodes, seeds, outer, t, c)
    except exactlaw.TooMany:
        return
    tot = {}
    for (s, w), p in W.items():
        s = dict(s)
        E.ensure('a sample has the targets and agrees with the constraints',
                 all(v in s for v in t) and all(
                     s.get(v) == c[v] for v in c), s)
        if p > 1e-13:
            k = tuple(s[v] for v in t)
            tot[k] = tot.get(k, 0.) + p * math.exp(w)
    for k in itertools.product([0, 1], repeat=len(t)):
        cells = dict(c)
        cells.update(zip(t, k))
        E.ensure_eq('the weights are those of importance sampling (%r)'
                    % (k,), tot.get(k, 0.),
                    joint(nodes, seeds, cells, outer))


def mean_law(W, A):
    """Law of the log mean weight of A samples."""
    out = {}
    for combo in itertools.product(W.items(), repeat=A):
        p = 1.
        m = 0.
        for (s, w), q in combo:
            p *= q
            m += math.exp(w) / A
        v = round(math.log(m), 9) if m > 0 else -INF
        out[v] = out.get(v, 0.) + p
    return out


@bounded('C21', 'logpdf', [IN + '.logpdf'], trials=80, bound=NW
         + '; accuracy 1 and 2')
def _(E):
    nodes, seeds, outer, t, c = small(E)
    A = E.choice('accuracy', [1, 1, 2])
    cells = dict((v, int(E.r.randint(2))) for v in t)
    try:
        WJ = weighted_law(E, nodes, seeds, outer, [], dict(
            list(c.items()) + list(cells.items())), 500)
        WM = weighted_law(E, nodes, seeds, outer, [], c, 500)
    except exactlaw.TooMany:
        return
    if A == 2 and (len(WJ) > 12 or len(WM) > 12):
        return
    lj, lm = mean_law(WJ, A), mean_law(WM, A) if c else {0.: 1.}
    want = {}
    for a, p in lj.items():
        for b, q in lm.items():
            k = 'zero density' if b == -INF else (
                -INF if a == -INF else round(a - b, 6) + 0.)
            want[k] = want.get(k, 0.) + p * q

    def run(rng):
        try:
            v = float(network(E, nodes, seeds, rng, A).logpdf(
                None, dict(cells), dict(c) or None, dict(outer)))
        except ValueError as e:
            if 'ero density' not in str(e):
                raise
            return 'zero density'
        return v if v == -INF else round(v, 6) + 0.
    if len(want) > 400:
        return
    try:
        got = exactlaw.law(run, 4000)
    except exactlaw.TooMany:
        return
    flt = lambda d: sorted(((repr(k) if not isinstance(k, float) or
                             k == -INF else round(k, 4)), round(p, 6))
                           for k, p in d.items() if p > 1e-9)
    merge = {}
    E.ensure('the log ratio of the mean weights', close(got, want),
             (flt(got) if 0 else got, want))


def close(a, b):
    """Equality of laws over floats up to rounding of the support."""
    def norm(d):
        out = []
        for k, p in d.items():
            if p > 1e-11:
                out.append((1, k, p) if isinstance(k, float) and k != -INF
                           else (0, repr(k), p))
        out.sort(key=lambda x: (x[0], x[1]))
        m = []
        for x in out:
            if m and x[0] == 1 == m[-1][0] and abs(x[1] - m[-1][1]) < 1e-5:
                m[-1] = (1, m[-1][1], m[-1][2] + x[2])
            else:
                m.append(x)
        return m
    a, b = norm(a), norm(b)
    return len(a) == len(b) and all(
        x[0] == y[0] and (x[1] == y[1] if x[0] == 0
                          else abs(x[1] - y[1]) < 2e-5)
        and abs(x[2] - y[2]) < 1e-7 for x, y in zip(a, b))


@bounded('C21', 'simulate', [IN + '.simulate'], trials=60, bound=NW
         + '; accuracy 1 and 2')
def _(E):
    nodes, seeds, outer, t, c = small(E)
    A = E.choice('accuracy', [1, 1, 2])
    try:
        W = weighted_law(E, nodes, seeds, outer, t, c, 500)
    except exactlaw.TooMany:
        return
    if len(W) ** A > 300:
        return
    want = {}
    for combo in itertools.product(W.items(), repeat=A):
        p = 1.
        for _, q in combo:
            p *= q
        ws = [math.exp(w) for (s, w), _ in combo]
        if sum(ws) == 0:
            want['zero density'] = want.get('zero density', 0.) + p
            continue
        for ((s, w), _), x in zip(combo, ws):
            k = tuple(dict(s)[v] for v in t)
            want[k] = want.get(k, 0.) + p * x / sum(ws)

    def run(rng):
        try:
            s = network(E, nodes, seeds, rng, A).simulate(
                None, list(t), dict(c) or None, dict(outer))
        except ValueError as e:
            if 'ero density' not in str(e):
                raise
            return 'zero density'
        assert set(s) == set(t), s
        return tuple(int(s[v]) for v in t)
    try:
        got = exactlaw.law(run, 4000)
    except exactlaw.TooMany:
        return
    want = dict((k, p) for k, p in want.items() if p > 1e-12)
    got = dict((k, p) for k, p in got.items() if p > 1e-12)
    E.ensure('a sample is drawn in proportion to its weight',
             set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-7
                                           for k in got), (got, want))
    ss = None
    try:
        ss = network(E, nodes, seeds, np.random.RandomState(3), A).simulate(
            None, list(t), dict(c) or None, dict(outer), 3)
    except ValueError:
        pass
    E.ensure('N samples', ss is None or (len(ss) == 3 and all(
        set(x) == set(t) for x in ss)), ss)


# ---- a CrossCat state with hooked models

def binary_state(E, **kw):
    return St(E, types=('bernoulli',), cols=int(E.r.randint(1, 4)),
              n=int(E.r.randint(1, 4)), **kw)


def hook(E, st, s, rng, plan):
    toks = []
    for outs, ins, seed in plan:
        toks.append(s.compose_cgpm(Cpt(outs, ins, seed, rng, zeros=0.)))
    return toks


def plan_of(E, st):
    """One or two hooked tables: on columns of the state, possibly chained."""
    r = E.r
    free = [101, 103, 102]
    plan = []
    pool = list(st.cols)
    for i in range(int(r.randint(1, 3))):
        o = [free.pop(0)]
        ins = [v for v in pool if r.randint(2)] or pool[-1:]
        plan.append((o, [int(v) for v in r.permutation(ins)],
                     int(r.randint(10 ** 6))))
        pool = pool + o
    E.note('hooked', plan)
    return plan


def exact(st, plan, cells, rowid=None):
    """log P(cells) with every other variable summed out."""
    hv = [v for o, _, _ in plan for v in o]
    vs = list(st.cols) + hv
    free = [v for v in vs if v not in cells]
    tot = 0.
    for xs in itertools.product([0, 1], repeat=len(free)):
        a = dict(cells)
        a.update(zip(free, xs))
        p = math.exp(st.conditional(dict((c, a[c]) for c in st.cols), {},
                                    rowid))
        for o, i, sd in plan:
            p *= Cpt(o, i, sd, None, zeros=0.).mass(
                dict((v, a[v]) for v in o), dict((v, a[v]) for v in i))
        tot += p
    return math.log(tot)


CS = 'up to 3 binary columns, 3 rows and 2 hooked tables; the exact law by ' \
     'enumeration'


@bounded('C21', 'composite/logpdf', [
    S + '.logpdf', S + '._populate_constraints', S + '.build_network',
    S + '.compose_cgpm'], trials=80, bound=CS)
def _(E):
    st = binary_state(E)
    plan = plan_of(E, st)
    s = st.state
    hook(E, st, s, E.rng(), plan)
    E.ensure('a hooked state is composite', bool(s.is_composite()))
    hv = [v for o, _, _ in plan for v in o]
    cells = dict((v, int(E.r.randint(2))) for v in st.cols + hv)
    E.ensure_eq('all cells: the chain rule', s.logpdf(-1, dict(cells)),
                exact(st, plan, cells))
    # with every column given, the answer is exact
    given = dict((v, cells[v]) for v in st.cols)
    t = dict((v, cells[v]) for v in hv)
    E.ensure_eq('hooked cells given the columns', s.logpdf(
        E.choice('rowid', [None, -1, st.n]), dict(t), dict(given)),
        exact(st, plan, cells) - exact(st, plan, given))
    # an estimate is unbiased
    some = dict((v, cells[v]) for v in cells if E.r.randint(2))
    if not some:
        return
    E.note('query', some)

    def run(rng):
        ss = st.build(rng=rng)
        hook(E, st, ss, rng, plan)
        return float(ss.logpdf(-1, dict(some)))
    try:
        got = exactlaw.law(run, 300)
    except (exactlaw.TooMany, exactlaw.NotDiscrete):
        return
    E.ensure_eq('the estimate is unbiased',
                sum(p * math.exp(v) for v, p in got.items()),
                math.exp(exact(st, plan, some)))


@bounded('C21', 'composite/observed row', [
    S + '.logpdf', S + '.simulate', S + '._populate_constraints',
    S + '._validate_cgpm_query'], trials=60, bound=CS)
def _(E):
    st = binary_state(E, pnan=E.choice('pnan', [0., .4]))
    plan = plan_of(E, st)[:1]
    (o, ins, sd), = plan
    r = int(E.r.randint(st.n))
    obs = dict((c, st.X[c][r]) for c in st.cols
               if not mixlib.isnan(st.X[c][r]))
    E.note('row', (r, obs))

    def law(f):
        def run(rng):
            ss = st.build(rng=rng)
            hook(E, st, ss, rng, plan)
            return f(ss)
        return exactlaw.law(run, 300)
    miss = [c for c in ins if c not in obs]
    want = {0: 0., 1: 0.}
    for xs in itertools.product([0, 1], repeat=len(miss)):
        a = dict(obs)
        a.update(zip(miss, xs))
        p = math.exp(sum(st.conditional({c: a[c]}, {}, r) for c in miss))
        for v in (0, 1):
            want[v] += p * Cpt(o, ins, sd, None, zeros=0.).mass(
                {o[0]: v}, dict((i, a[i]) for i in ins))
    try:
        got = law(lambda ss: int(ss.simulate(r, [o[0]])[o[0]]))
        lp = law(lambda ss: float(ss.logpdf(r, {o[0]: 1})))
    except (exactlaw.TooMany, exactlaw.NotDiscrete):
        return
    E.ensure('a hooked cell of an observed row is simulated given the cells '
             'of the row', all(abs(got.get(v, 0.) - want[v]) < 1e-7
                               for v in want), (got, want))
    E.ensure_eq('a hooked cell of an observed row has its density given the '
                'cells of the row', sum(p * math.exp(v) for v, p in
                                        lp.items()), want[1])
    full = dict((c, st.X[c][r]) for c in st.cols if c in obs)
    if not miss:
        E.ensure('no estimate is needed when the inputs are observed',
                 len(lp) == 1, lp)
    if obs:
        c = sorted(obs)[0]
        s = st.build()
        hook(E, st, s, E.rng(), plan)
        E.raises(VE, lambda: s.logpdf(r, {c: obs[c], o[0]: 1}),
                 'an observed cell is not queried')
        E.raises(VE, lambda: s.simulate(r, [o[0]], {c: 1 - obs[c]}),
                 'a constraint contradicting an observed cell')


@bounded('C21', 'composite/simulate', [S + '.simulate'], trials=40, bound=CS)
def _(E):
    st = binary_state(E)
    plan = plan_of(E, st)
    hv = [v for o, _, _ in plan for v in o]
    vs = [int(v) for v in E.r.permutation(st.cols + hv)]
    t = vs[:2]
    # constraints on the columns above all hooked tables only: exact
    given = {}
    if not set(st.cols) <= set(t) and E.r.randint(2):
        given = dict((c, int(E.r.randint(2))) for c in st.cols
                     if c not in t)
    views_ok = True
    E.note('query', (t, given))
    want = {}
    z = exact(st, plan, given) if given else 0.
    for xs in itertools.product([0, 1], repeat=len(t)):
        cells = dict(given)
        cells.update(zip(t, xs))
        want[xs] = math.exp(exact(st, plan, cells) - z)

    def run(rng):
        ss = st.build(rng=rng)
        hook(E, st, ss, rng, plan)
        x = ss.simulate(-1, list(t), dict(given) or None)
        assert set(x) == set(t)
        return tuple(int(x[v]) for v in t)
    try:
        got = exactlaw.law(run, 2500)
    except (exactlaw.TooMany, exactlaw.NotDiscrete):
        return
    E.ensure('joint samples over columns and hooked cells', all(
        abs(got.get(k, 0.) - want[k]) < 1e-7 for k in want), (got, want))


@bounded('C21', 'compose/decompose', [
    S + '.compose_cgpm', S + '.decompose_cgpm', S + '.build_cgpms'],
    trials=60, bound=CS)
def _(E):
    st = binary_state(E)
    s = st.state
    plan = plan_of(E, st)
    rng = E.rng()
    before = mixlib.state_state(s)
    E.ensure('no hooked model: not composite', not s.is_composite())
    q = st.some_cells(st.cols)
    lp = s.logpdf(-1, dict(q))
    toks = hook(E, st, s, rng, plan)
    E.ensure('every token is new', len(set(toks)) == len(toks))
    cs = list(s.build_cgpms())
    E.ensure('a network of the views and the hooked models',
             len(cs) == len(s.views) + len(toks) and all(
                 any(c is s.views[v] for c in cs) for v in s.views)
             and all(any(c is s.hooked_cgpms[k] for c in cs) for k in toks))
    for bad, why in [
            (Cpt([st.cols[0]], [], 1, rng), 'a column is modelled twice'),
            (Cpt([plan[0][0][0]], [], 1, rng), 'a variable modelled twice'),
            (Cpt([], [st.cols[0]], 1, rng), 'a model of nothing'),
            (Cpt([500], [500], 1, rng), 'a cycle')]:
        E.raises(VE, lambda: s.compose_cgpm(bad), why)
        E.ensure('a rejected model is not hooked: ' + why,
                 set(s.hooked_cgpms) == set(toks) and s.is_composite())
    E.ensure_eq('columns are queried as before', s.logpdf(-1, dict(q)), lp)
    for i, k in enumerate(reversed(toks)):
        s.decompose_cgpm(k)
        E.ensure('composite while a model is hooked',
                 bool(s.is_composite()) == (i + 1 < len(toks))
                 and set(s.hooked_cgpms) == set(toks[:len(toks) - 1 - i]))
    E.ensure_eq('columns are queried as before', s.logpdf(-1, dict(q)), lp)
    E.ensure('the state is as it was', same(before, mixlib.state_state(s)))
    E.raises((KeyError, ValueError), lambda: s.decompose_cgpm(toks[0]),
             'an unknown token')
