"""C18: what is written about a state or view of any size is what a
constructor is given when it is read back, proved over the contracts of their
parts; C10, C13: what the constructors build from it."""
import sys
import types

import numpy as np

from vf.spec import Stub, unit
from specs.statestubs import StateWorld, StubView, StubDim, S

V = 'cgpm.mixtures.view:View'
EN = 'cgpm.crosscat.engine:Engine'


class Column(StubDim):
    """A column: its kind, hyperparameters, arguments and statistics."""

    def __init__(self, W, c):
        StubDim.__init__(self, W, c)
        self.cctype = W.kind(c)
        self.hypers = W.hyper(c)
        self.distargs = W.arg(c)

    def _vf_subst(self, pairs):
        from vf import coll
        return Column(self.W, coll.subst(self.c, pairs))

    def get_suffstats(self):
        return {'N': self.W.stat(self.c)}

    def name(self):
        return self.cctype

    def get_distargs(self):
        return self.distargs


class Rows(StubView):
    def Zr(self, r=None):
        if r is None:
            return self.W.E.map_over(self.W.rowids, lambda i: self.W.zr(
                self.v, i))
        return self.W.zr(self.v, r)

    def alpha(self):
        return self.W.valpha(self.v)


def contents(W, E):
    W.kind, W.hyper = E.func('kind', sort='int'), E.func('hyper')
    W.arg, W.stat = E.func('arg'), E.func('stat')
    W.zr, W.valpha = E.func('zr', sort='int'), E.func('valpha')
    W.rowids = E.map('rowids', lambda r: 0)


class Written(StateWorld):
    def __init__(self, E, **kw):
        contents(self, E)
        StateWorld.__init__(self, E, **kw)

    def view(self, v):
        return Rows(self, v)

    def dim(self, c):
        return Column(self, c)


class Hooked(Stub):
    """A hooked model, and the class that reads it back."""

    def __init__(self, k):
        self.k = k

    def to_metadata(self):
        return {'k': self.k, 'factory': ('vf_hooked', 'Reader')}


def reader(log):
    m = types.ModuleType('vf_hooked')

    class Reader(object):
        @classmethod
        def from_metadata(cls, metadata, rng=None):
            log.append(('read', metadata['k'], rng))
            return 'model %d' % metadata['k']
    m.Reader = Reader
    return m


class Made(object):
    """Stands for the class: what it is constructed from."""

    def __init__(self, *args, **kw):
        self.args, self.kw, self.composed = args, kw, []

    def compose_cgpm(self, m):
        self.composed.append(m)


@unit('C18', 'a state is read as it was written', [
    S + '.to_metadata', S + '.from_metadata'], trials=60)
def _(E):
    """Every column and view of a state is written with what it holds, and
    is what the new state is made from."""
    W = Written(E)
    st = W.st
    X = [[1., 2.], [3., 4.], [5., 6.]]
    E.replace(st, 'data_array', lambda: np.array(X))
    st._loom_path = E.choice('loom', [None, 'path'])
    st.Cd, st.Ci = E.choice('dependent', [[], [[1, 2], [4, 5]]]), [(3, 4)]
    st.diagnostics = {'logscore': [-1., -2.], 'iterations': {'alpha': 3}}
    n = E.choice('hooked', [0, 2])
    for k in range(n):
        st.hooked_cgpms[57 + k] = Hooked(k)
    log = []
    sys.modules['vf_hooked'] = reader(log)
    try:
        md = st.to_metadata()
        E.ensure('the factory', E.get('%s:%s' % tuple(md['factory']))
                 is E.get(S))
        rng = E.rng() if E.flag('rng') else None
        t = E.get(S).from_metadata.__func__(Made, md, *(
            [rng] if rng is not None else []))
    finally:
        del sys.modules['vf_hooked']
    new = given(E, S, t)
    cols = st.outputs
    for name, f in (('cctypes', W.kind), ('hypers', W.hyper),
                    ('distargs', W.arg)):
        E.ensure_eq(name + ' of the columns in order', new[name],
                    E.mapped(f, cols))
    E.ensure_eq('the outputs in order', new['outputs'], cols)
    E.ensure_eq('the concentration', new['alpha'], st.alpha())
    E.ensure('the table', [list(r) for r in new['X']] == X)
    E.ensure('the constraints', (new['Cd'], new['Ci']) == (st.Cd, st.Ci))
    E.ensure('the diagnostics', new['diagnostics'] == st.diagnostics)
    E.ensure('the loom project', new['loom_path'] == st._loom_path)
    E.same_maps('the partition of the columns', new['Zv'], W.Zv)
    held = E.map_over(st.crp.clusters[0].counts, W.valpha)
    E.same_maps('the concentrations of the views', new['view_alphas'], held)
    rows = E.keys(W.rowids) if E.symbolic else sorted(W.rowids)
    E.same_members('the views', new['Zrv'], held)
    v = E.pick('view', held)
    E.ensure_eq('the rows of the view in order', new['Zrv'][v], E.mapped(
        lambda r: W.zr(v, r), rows))
    E.ensure('hooked models are read and composed', (
        sorted(x[1] for x in log), sorted(t.composed)) == (
            list(range(n)), ['model %d' % k for k in range(n)]))
    if rng is not None:
        E.ensure('the generator is the one given', new['rng'] is rng and all(
            x[2] is rng for x in log))
    E.ensure('a generator', new['rng'] is not None)


def given(E, path, made):
    """The arguments of the constructor by name."""
    import inspect
    b = inspect.signature(E.get(path).__init__).bind(
        None, *made.args, **made.kw)
    b.apply_defaults()
    return b.arguments


@unit('C18', 'a view is read as it was written', [
    V + '.to_metadata', V + '.from_metadata'], trials=60)
def _(E):
    W = Stub()
    W.E = E
    contents(W, E)
    view = E.bare(E.get(V))
    cols = E.map('cols', lambda c: 0)
    names = E.keys(cols)
    view.outputs = [10 ** 7] + names
    view.inputs = []
    view.X = X = {3: [1., 2.]}
    view.dims = E.objects_over(cols, 'dims', lambda c: Column(W, c))
    E.replace(view, 'Zr', lambda i=None: E.map_over(
        W.rowids, lambda r: W.zr(0, r)) if i is None else W.zr(0, i))
    a = E.real('alpha', lo=0)
    E.replace(view, 'alpha', lambda: a)
    md = view.to_metadata()
    E.ensure('the factory', E.get('%s:%s' % tuple(md['factory']))
             is E.get(V))
    rng = E.rng() if E.flag('rng') else None
    t = E.get(V).from_metadata.__func__(Made, md, *(
        [rng] if rng is not None else []))
    new = given(E, V, t)
    for name, f in (('cctypes', W.kind), ('hypers', W.hyper),
                    ('distargs', W.arg)):
        E.ensure_eq(name + ' of the columns in order', new[name],
                    E.mapped(f, names))
    E.ensure_eq('the outputs in order', new['outputs'], view.outputs)
    E.ensure_eq('the concentration', new['alpha'], a)
    E.ensure('the table', new['X'] == X)
    E.ensure('no inputs', not new['inputs'])
    E.ensure_eq('the rows in order', new['Zr'], E.mapped(
        lambda r: W.zr(0, r), E.keys(W.rowids) if E.symbolic
        else sorted(W.rowids)))
    E.ensure('the generator', new['rng'] is (rng or new['rng'])
             and new['rng'] is not None)
