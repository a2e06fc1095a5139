"""C10, C13: what the constructors of views and states build, proved over the
contracts of the parts they build it from. The number of columns is fixed in
each unit; rows (of a view), values, types, arguments and hyperparameters are
arbitrary."""
from vf.spec import Stub, unit

V = 'cgpm.mixtures.view:View'
S = 'cgpm.crosscat.state:State'
Z = 10 ** 7


class Cells(Stub):
    """A column of a table of n rows."""

    def __init__(self, c, n):
        self.c, self.n = c, n

    def _vf_len(self):
        return self.n

    def __len__(self):
        return self.n


class Part(Stub):
    """A column or partition: what it is made of and what is done with it."""

    def __init__(self, W, given):
        self.W, self.given = W, given
        self.index = given['outputs'][0]
        self.inputs = given['inputs']
        self.outputs = given['outputs']
        self.hypers = given.get('hypers')
        self.log = []

    def transition_hyper_grids(self, X, n_grid=30):
        self.log.append(('grids', X))

    def incorporate(self, rowid, observation, inputs=None):
        self.W.on_incorporate(self, rowid, observation, inputs)

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        return self.W.on_simulate(self, rowid, targets, constraints, inputs)

    def logpdf_score(self):
        return self.W.E.real('score')

    def is_conditional(self):
        return False


def bind(args, kw):
    import inspect

    def sig(outputs, inputs, cctype=None, hypers=None, params=None,
            distargs=None, rng=None):
        pass
    b = inspect.signature(sig).bind(*args, **kw)
    b.apply_defaults()
    return dict(b.arguments)


class Making(Stub):
    def __init__(self, E, module):
        self.E, self.made = E, []

        def make(*args, **kw):
            p = Part(self, bind(args, kw))
            self.made.append(p)
            return p
        E.patch('%s:Dim' % module, make)

    def on_simulate(self, part, rowid, targets, constraints, inputs):
        E = self.E
        E.ensure('clusters are drawn from the partition', part.given[
            'cctype'] == 'crp' and targets == part.outputs
            and not constraints and inputs == {-1: 0})
        return {targets[0]: self.drawn(rowid)}


NAMES = ([], [3], [7, 2], [5, 9, 4])
for _m in (0, 1, 2, 3):
    for _z in ('drawn', 'given'):
        @unit('C10', 'constructor/%d columns, rows %s' % (_m, _z),
              [V + '.__init__', V + '.incorporate_dim'], trials=30)
        def _(E, m=_m, z=_z):
            """A view has a cluster for every row, the one given or one drawn
            given the rows before it, and every column it is given, made of
            its own type, arguments and hyperparameters, with the cells of
            the table by cluster."""
            W = Making(E, 'cgpm.mixtures.view')
            n = E.size('n', 0)
            cluster = E.func('z', sort='int', lo=0)
            W.drawn = cluster
            cols = NAMES[m]
            X = dict((c, Cells(c, n)) for c in cols + [11])
            kind = ['kind %d' % c for c in cols]
            arg = E.choice('arguments', [None, 'all', 'inputs'])
            distargs = None if arg is None else [
                {'k': c} if arg == 'all' or i else
                {'inputs': {'indexes': [11], 'stattypes': ['normal']}}
                for i, c in enumerate(cols)]
            hypers = E.choice('hypers', [None, 'some'])
            hypers = hypers and [
                None if i == 1 else {'a': E.real('a%d' % i)}
                for i, c in enumerate(cols)]
            alpha = E.real('alpha', lo=0) if E.flag('alpha given') else None
            rng = E.rng()
            placed = []

            def on_incorporate(part, rowid, observation, inputs):
                E.ensure('only the rows are put into the partition',
                         part is W.made[0])
                E.ensure('at its own variable', inputs == {-1: 0} and list(
                    observation) == [Z])
                E.ensure_eq('a row has its cluster', observation[Z],
                            cluster(rowid))
                E.event('row', rowid)
            W.on_incorporate = on_incorporate

            def bulk(view, part):
                E.ensure('the grids come before the cells', [
                    x[0] for x in part.log] == ['grids'])
                placed.append(part)
            E.patch(V + '._bulk_incorporate', bulk)
            E.patch(V + '._check_partitions', lambda view: None)
            E.events = []
            Zr = None if z == 'drawn' else E.table('Zr', n, cluster)
            view = E.get(V)(
                X, outputs=[Z] + cols, cctypes=kind, distargs=distargs,
                hypers=hypers, alpha=alpha, Zr=Zr, rng=rng)
            E.ensure_each('every row has a cluster', E.upto(n), 'row')
            E.ensure('one partition and the columns', len(W.made) == m + 1
                     and view.crp is W.made[0])
            crp = W.made[0].given
            E.ensure('the partition', crp['outputs'] == [Z] and crp[
                'cctype'] == 'crp' and crp['inputs'] == [-1])
            E.ensure('its concentration', (crp['hypers'] is None) == (
                alpha is None))
            if alpha is not None:
                E.ensure_eq('its concentration', crp['hypers']['alpha'],
                            alpha)
            (what, ones), = view.crp.log
            E.ensure_eq('its grids are made for the rows', E.length(ones), n)
            E.ensure('parts are made without parameters', not any(
                p.given['params'] for p in W.made))
            E.ensure('all parts draw from the generator given', all(
                p.given['rng'] is rng for p in W.made) and view.rng is rng)
            E.ensure('the columns', sorted(view.dims) == sorted(cols))
            E.ensure('the outputs', view.outputs[0] == Z and sorted(
                view.outputs[1:]) == sorted(cols))
            E.ensure('every column holds its cells once', [
                p.index for p in placed] == cols)
            E.ensure('no inputs, the table', not view.inputs
                     and view.X is X)
            for i, c in enumerate(cols):
                p = view.dims[c]
                g = p.given
                E.ensure('a column is its own', g['outputs'] == [c]
                         and p in placed)
                E.ensure('its type', g['cctype'] == kind[i])
                E.ensure('its arguments', g['distargs'] == (
                    None if arg is None else distargs[i]))
                E.ensure('its hyperparameters', g['hypers'] is (
                    None if not hypers else hypers[i]))
                E.ensure('its inputs', p.inputs == [Z] + (
                    [11] if arg == 'inputs' and i == 0 else []))
                E.ensure('its grids are made from its cells', len(
                    p.log) == 1 and p.log[0][1] is X[c])
            E.ensure('the arguments are left alone', distargs is None
                     or arg != 'inputs' or not cols or
                     distargs[0]['inputs']['indexes'] == [11])


@unit('C10', 'constructor/refused', [V + '.__init__'], trials=30)
def _(E):
    W = Making(E, 'cgpm.mixtures.view')
    W.on_incorporate = lambda *a: E.ensure('nothing is put anywhere', False)
    n = E.size('n', 1)
    X = {2: Cells(2, n), 4: Cells(4, n)}
    make = E.get(V)
    E.patch(V + '._bulk_incorporate', lambda view, part: None)
    case = E.choice('case', [
        dict(inputs=[4], outputs=[Z, 2], cctypes=['normal']),
        dict(outputs=[]), dict(inputs=[4], outputs=[])])
    E.raises(ValueError, lambda: make(X, rng=E.rng(), **case),
             'inputs, or no variable for the cluster')
    E.ensure('nothing is made', not W.made)


# ---------------------------------------------------------------- states

class Counts(Stub):
    def __init__(self):
        self.data = {}

    @property
    def counts(self):
        out = {}
        for z in self.data.values():
            out[z] = out.get(z, 0) + 1
        return out


class MadeView(Stub):
    """A view: what it is made of."""

    def __init__(self, X, args):
        self.X, self.args = X, args
        self.dims = dict((c, Stub()) for c in args['outputs'][1:])
        for c, d in self.dims.items():
            d.is_conditional = lambda c=c: c in args['conditional']


def partitions(xs):
    """Every partition of xs into labelled blocks, a few labels each."""
    if not xs:
        return [[]]
    out = []
    for p in partitions(xs[:-1]):
        for z in sorted(set(p)) + [max(p) + 3 if p else 2]:
            out.append(p + [z])
    return out


def state_world(E, cols, Zv):
    W = Making(E, 'cgpm.crosscat.state')
    W.views, W.seated = [], []
    W.drawn = lambda c: Zv[c]

    def on_incorporate(part, col, observation, inputs):
        E.ensure('only the columns are put into the partition',
                 part is W.made[0] and len(W.made) == 1)
        E.ensure('at its own variable', inputs == {-1: 0} and list(
            observation) == part.outputs)
        E.ensure('the views are made after the partition', not W.views)
        part.clusters[0].data[col] = observation[part.outputs[0]]
        W.seated.append(col)
    W.on_incorporate = on_incorporate
    make = E.get('cgpm.crosscat.state:Dim')

    def make_crp(*args, **kw):
        p = make(*args, **kw)
        p.clusters = {0: Counts()}
        if not p.hypers:
            p.hypers = {'alpha': W.chosen}
        return p
    W.chosen = E.real('alpha drawn', lo=0)
    E.patch('cgpm.crosscat.state:Dim', make_crp)
    W.conditional = E.choice('conditional', [[], cols[:1]])

    def view(X, outputs=None, inputs=None, alpha=None, cctypes=None,
             distargs=None, hypers=None, Zr=None, rng=None):
        v = MadeView(X, dict(
            outputs=outputs, inputs=inputs, alpha=alpha, cctypes=cctypes,
            distargs=distargs, hypers=hypers, Zr=Zr, rng=rng,
            conditional=W.conditional))
        W.views.append(v)
        return v
    E.patch('cgpm.crosscat.state:View', view)
    E.patch(S + '._check_partitions', lambda state: None)
    return W


def check_state(E, W, st, X, cols, Zv, given, n):
    E.ensure('the outputs in order', st.outputs == cols
             and st.outputs_set == set(cols) and not st.inputs)
    E.ensure('the table has a column for each', list(st.X) == cols)
    for i, c in enumerate(cols):
        E.ensure('of all rows', len(st.X[c]) == n)
        for r in range(n):
            E.ensure_eq('with the cells given', st.X[c][r], X[r][i])
    crp, = W.made
    E.ensure('the partition of the columns', st.crp is crp
             and crp.given['cctype'] == 'crp'
             and crp.given['inputs'] == [-1]
             and crp.outputs == [st.crp_id])
    E.ensure('its concentration', (crp.given['hypers'] is None) == (
        given['alpha'] is None))
    if given['alpha'] is not None:
        E.ensure_eq('its concentration', st.alpha(), given['alpha'])
    E.ensure('its grids are made for the columns', crp.log == [
        ('grids', [1] * len(cols))])
    E.ensure('every column is in it once', sorted(W.seated) == sorted(cols))
    E.ensure('in the view given or drawn', st.Zv() == Zv)
    E.ensure('a view for each class of columns',
             sorted(st.views) == sorted(set(Zv.values()))
             and len(W.views) == len(st.views))
    for v, w in st.views.items():
        a = w.args
        mine = [c for c in cols if Zv[c] == v]
        E.ensure('its variable is its own', a['outputs'][0]
                 == st.crp_id_view + v)
        E.ensure('its columns', sorted(a['outputs'][1:]) == sorted(mine))
        E.ensure('over the table of the state', w.X is st.X)
        E.ensure('it has no inputs', not a['inputs'])
        for i, c in enumerate(a['outputs'][1:]):
            for name in ('cctypes', 'distargs', 'hypers'):
                want = given[name] and given[name][cols.index(c)]
                E.ensure('a column has its own ' + name,
                         a[name][i] is want or a[name][i] == want)
        E.ensure('its rows are the ones given', a['Zr'] is (
            given['Zrv'] and given['Zrv'][v]))
        want = given['view_alphas'] and given['view_alphas'].get(v)
        E.ensure('its concentration is given or not',
                 (a['alpha'] is None) == (want is None))
        if want is not None:
            E.ensure_eq('its concentration', a['alpha'], want)
    E.ensure('all parts draw from the generator given', all(
        x.args['rng'] is given['rng'] for x in W.views)
        and crp.given['rng'] is given['rng'] and st.rng is given['rng'])
    E.ensure('it is composite when a column is conditional',
             st.is_composite() == bool(W.conditional))
    E.ensure('no hooked models', st.hooked_cgpms == {})


for _m in (1, 2, 3):
    for _z in ('drawn', 'given'):
        @unit('C13', 'constructor/%d columns, views %s' % (_m, _z),
              [S + '.__init__'], trials=30)
        def _(E, m=_m, z=_z):
            """A state has every column in one view, the one given or one
            drawn given the columns before it; every view is made of its
            columns with their own types, arguments and hyperparameters."""
            cols = NAMES[m]
            outputs = cols
            if E.flag('numbered'):
                cols = list(range(m))
                outputs = E.choice('outputs', [None, cols])
            part = E.choice('partition', partitions(cols))
            Zv = dict(zip(cols, part))
            W = state_world(E, cols, Zv)
            n = E.choice('rows', [1, 2])
            X = [[E.real('x%d%d' % (r, i)) for i in range(m)]
                 for r in range(n)]
            full = E.flag('all given')
            views = sorted(set(part))
            given = dict(
                alpha=E.real('alpha', lo=0) if full else None,
                cctypes=full and ['kind %d' % c for c in cols] or None,
                distargs=full and [
                    None if i == 1 else {'k': c} for i, c in enumerate(cols)]
                or None,
                hypers=full and [None if i == 1 else {
                    'a': E.real('a%d' % i)} for i in range(m)] or None,
                view_alphas=full and dict(
                    (v, E.real('alpha of %d' % v, lo=0))
                    for v in views[1:]) or None,
                Zrv=z == 'given' and full and dict(
                    (v, [v + 5] * n) for v in views) or None,
                rng=E.rng())
            diagnostics = {'logscore': [-1.], 'iterations': {
                'alpha': 2}} if full else None
            st = E.get(S)(
                X, outputs=outputs, Zv=dict(reversed(list(
                    Zv.items()))) if z == 'given' else None,
                diagnostics=diagnostics, loom_path='p' if full else None,
                **given)
            check_state(E, W, st, X, cols, Zv, given, n)
            E.ensure('no constraints', (st.Cd, st.Ci) == ([], []))
            E.ensure('the loom project', st._loom_path == (
                'p' if full else None))
            E.ensure('the diagnostics', dict(st.diagnostics) == (
                diagnostics or {'iterations': {}})
                and st.diagnostics is not diagnostics)
            if full:
                st.diagnostics['logscore'].append(0)
                st.diagnostics['iterations']['alpha'] = 7
                E.ensure('which are its own', diagnostics == {
                    'logscore': [-1.], 'iterations': {'alpha': 2}})


for _case in ('dependent', 'independent', 'both'):
    @unit('C13', 'constructor/constrained, %s' % _case,
          [S + '.__init__'], trials=30)
    def _(E, case=_case):
        """The partition of the columns is drawn under the constraints, by
        the law of its kind; a partition given is taken as it is."""
        numbered = E.flag('numbered')
        cols = [0, 1, 2] if numbered else NAMES[3]
        part = E.choice('partition', [[0, 0, 1], [2, 5, 2], [0, 1, 2]])
        Zv = dict(zip(cols, part))
        W = state_world(E, cols, Zv)
        Cd = [] if case == 'independent' else [[0, 1]]
        Ci = [] if case == 'dependent' else [(1, 2)]
        rng = E.rng()
        n = 1
        alpha = E.real('alpha', lo=0) if E.flag('alpha given') else None
        calls = []

        def independent(size, a, Cd_, Ci_, Rd, Ri, rng=None):
            calls.append(('independent', size, Cd_, Ci_, Rd, Ri, rng))
            E.ensure_eq('the concentration of the law', a,
                        W.chosen if alpha is None else alpha)
            return list(part)

        def dependent(size, a, Cd_, rng=None):
            calls.append(('dependent', size, Cd_, rng))
            E.ensure_eq('the concentration of the law', a,
                        W.chosen if alpha is None else alpha)
            return list(part)
        E.patch('cgpm.utils.general:simulate_crp_constrained', independent)
        E.patch('cgpm.utils.general:simulate_crp_constrained_dependent',
                dependent)
        X = [[E.real('x%d' % i) for i in range(3)]]
        given = dict(alpha=alpha, cctypes=None, distargs=None, hypers=None,
                     view_alphas=None, Zrv=None, rng=rng)
        loaded = E.flag('partition given')
        make = lambda: E.get(S)(X, outputs=cols, Cd=Cd, Ci=Ci, Zv=dict(
            Zv) if loaded else None, **given)
        if not numbered and not loaded:
            E.raises(ValueError, make, 'constraints are of numbered columns')
            E.ensure('nothing is drawn', not calls and not W.seated)
            return
        st = make()
        check_state(E, W, st, X, cols, Zv, given, n)
        E.ensure('the constraints are kept', (st.Cd, st.Ci) == (Cd, Ci))
        if loaded:
            E.ensure('nothing is drawn', not calls)
        elif Ci:
            E.ensure('drawn under all constraints', calls == [(
                'independent', 3, Cd, Ci, {}, {}, rng)])
        else:
            E.ensure('drawn under the constraints', calls == [(
                'dependent', 3, Cd, rng)])


@unit('C13', 'constructor/refused', [S + '.__init__'], trials=30)
def _(E):
    """Inputs and row constraints are refused before anything is made."""
    Zv = {0: 0, 1: 0}
    W = state_world(E, [0, 1], Zv)
    case = E.choice('case', [dict(inputs=[4]), dict(Rd={0: [(0, 1)]}),
                             dict(Ri={0: [(0, 1)]})])
    X = [[E.real('x0'), E.real('x1')]]
    E.raises(ValueError, lambda: E.get(S)(X, rng=E.rng(), **case),
             'inputs and constraints of rows')
    E.ensure('nothing is made', not W.made and not W.views)
