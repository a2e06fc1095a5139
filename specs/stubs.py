"""Callee contracts as objects: a component whose answers are arbitrary
functions of its key and arguments."""
from vf.spec import Stub


def make_model(E, **kw):
    """A class to stand for a DistributionGpm: its score, density and samples
    are arbitrary functions."""
    score = E.func('score')
    dens = E.func('density')
    val = E.func('sample')
    state = dict(made=0, score=score, dens=dens, val=val, calls=[],
                 collapsed=True, grids=None)
    state.update(kw)

    class Model(Stub):
        st = state

        def __init__(self, outputs=None, inputs=None, hypers=None,
                     params=None, distargs=None, rng=None, key=None):
            self.key = key
            if key is None:
                state['made'] += 1
                self.key = -state['made']
            self.outputs, self.inputs = outputs, inputs
            self.hypers = None if hypers is None else dict(hypers)
            self.distargs, self.rng = distargs, rng

        def hs(self):
            return [self.hypers[k] for k in sorted(self.hypers or {})]

        def set_hypers(self, hypers):
            E.event('set_hypers', self.key, dict(hypers))
            E.setattr(self, 'hypers', dict(hypers))

        def get_hypers(self):
            return dict(self.hypers)

        def logpdf_score(self):
            return score(self.key, *self.hs())

        def transition_params(self):
            E.event('transition_params', self.key)

        def incorporate(self, *a, **k):
            state['calls'].append(('incorporate', self.key, a, k))

        def unincorporate(self, *a, **k):
            state['calls'].append(('unincorporate', self.key, a, k))

        def logpdf(self, *a, **k):
            state['calls'].append(('logpdf', self.key, a, k))
            return dens(self.key)

        def simulate(self, *a, **k):
            state['calls'].append(('simulate', self.key, a, k))
            return {'sample': val(self.key)}

        def get_suffstats(self):
            return {'stats': self.key}

        def get_distargs(self):
            return dict(self.distargs or {})

        @staticmethod
        def name():
            return 'stub'

        @staticmethod
        def is_collapsed():
            return state['collapsed']

        @staticmethod
        def is_conditional():
            return state.get('conditional', False)

        @staticmethod
        def is_continuous():
            return state.get('continuous', True)

        @staticmethod
        def is_numeric():
            return state.get('numeric', True)

        @staticmethod
        def construct_hyper_grids(X, n_grid=30):
            state['calls'].append(('grids', None, (X,), {'n': n_grid}))
            return state['grids'](X, n_grid)

    return Model


def call_args(c, names, defaults):
    """Positional or keyword arguments of a recorded call, by name."""
    _, _, a, k = c
    out = dict(defaults)
    for n, v in zip(names, a):
        out[n] = v
    out.update(k)
    return out
