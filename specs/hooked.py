"""C21, C13: hooking models into a state and taking them out, proved for any
state and any number of models already hooked."""
import itertools

from specs.statestubs import StateWorld, S
from vf.spec import unit, Stub

SM = 'cgpm.crosscat.state'
FIRST = 60000


class Foreign(Stub):
    """The model hooked under the token k: its output tells which it is."""

    def __init__(self, k):
        self.v, self.outputs = k, [-k]

    def _vf_subst(self, pairs):
        from vf import coll
        return Foreign(coll.subst(self.v, pairs))


def world(E):
    W = StateWorld(E)
    st = W.st
    f = E.func('conditional', sort='int')
    W.conditional = lambda c: f(c) > 0
    tokens = E.map('hooked', lambda k: 0, keys=None if E.symbolic else
                   range(-E.size('models', hi=3), 0))
    E.assume_each(tokens, lambda k: k < 0)
    st.hooked_cgpms = E.map_over(tokens, Foreign)
    if not E.symbolic:
        st.hooked_cgpms = dict(st.hooked_cgpms)
    st.token_generator = itertools.count(FIRST)
    W.tokens = tokens
    W.cond = E.any(E.mapped(lambda c: W.conditional(c), E.keys(W.Zv)))
    st._composite = E.Or(E.length(tokens) > 0, W.cond)
    return W


def members(E, W, extra=()):
    """One name per view and hooked model."""
    return E.keys(W.views) + E.keys(W.tokens) + list(extra)


def network(E, W, answer):
    """The constructor of a network, which checks its models."""
    log = []

    def build(cgpms, accuracy=None, rng=None):
        log.append((cgpms, accuracy, rng))
        return answer()
    E.patch(SM + ':ImportanceNetwork', build)
    return log


def given(E, W, log, extra, name):
    E.ensure('a network is built: ' + name, len(log) == 1)
    names = E.mapped(lambda c: c.v, log[0][0])
    E.same_members('of the views and the hooked models: ' + name, names,
                   members(E, W, extra))
    E.ensure_eq('each once: ' + name, E.length(log[0][0]),
                E.length(W.views) + E.length(W.tokens) + len(extra))
    E.ensure('of the draws of the state: ' + name,
             log[0][2] is W.st.rng)


@unit('C21', 'the network of a state', [S + '.build_network',
                                        S + '.build_cgpms'], trials=30)
def _(E):
    W = world(E)
    net = Stub()
    log = network(E, W, lambda: net)
    a = E.choice('accuracy', [None, 'given'])
    if a == 'given':
        a = E.int('a', lo=1)
    E.ensure('the network is returned', W.st.build_network(a) is net)
    given(E, W, log, [], 'query')
    E.ensure_eq('the accuracy', log[0][1], 1 if a is None else a)


@unit('C21', 'hook a model', [S + '.compose_cgpm', S + '.build_network',
                              S + '.build_cgpms', S + '._update_is_composite',
                              S + '.is_composite', S + '.dims'], trials=40)
def _(E):
    """A model that fits is hooked under a new token; one that does not is
    refused and leaves the state as it was."""
    W = world(E)
    st = W.st
    fits = E.choice('fits', [True, False])

    def answer():
        if not fits:
            raise ValueError('the models do not fit')
        return Stub()
    log = network(E, W, answer)
    m = Foreign(FIRST + 5)
    if not fits:
        E.raises((ValueError,), lambda: st.compose_cgpm(m), 'it does not fit')
        given(E, W, log, [FIRST + 5], 'hooked')
        E.same_members('nothing is hooked', st.hooked_cgpms, W.tokens)
        E.ensure_eq('composite as before', E.truth(st.is_composite()),
                    E.Or(E.length(W.tokens) > 0, W.cond))
        return
    token = st.compose_cgpm(m)
    given(E, W, log, [FIRST + 5], 'hooked')
    E.ensure('the model is hooked under its token',
             st.hooked_cgpms[token] is m)
    E.ensure('the token is new', E.Not(E.has(W.tokens, token)))
    E.ensure_eq('one more', E.length(st.hooked_cgpms),
                E.length(W.tokens) + 1)
    E.ensure('the state is composite', st.is_composite())
    again = st.compose_cgpm(Foreign(FIRST + 6))
    E.ensure('another token for another model', again != token)


@unit('C21', 'unhook a model', [S + '.decompose_cgpm', S + '.build_network',
                                S + '.build_cgpms',
                                S + '._update_is_composite',
                                S + '.is_composite', S + '.dims'], trials=40)
def _(E):
    """The model of the token is taken out and no other."""
    W = world(E)
    st = W.st
    log = network(E, W, Stub)
    token = FIRST + 1
    if E.flag('unknown'):
        E.raises((KeyError, ValueError), lambda: st.decompose_cgpm(token),
                 'an unknown token')
        E.same_members('nothing is taken out', st.hooked_cgpms, W.tokens)
        return
    st.hooked_cgpms[token] = Foreign(token)
    st._composite = True
    st.decompose_cgpm(token)
    E.same_members('the others stay', st.hooked_cgpms, W.tokens)
    E.ensure_eq('composite if another model is hooked or a column is '
                'conditional', E.truth(st.is_composite()),
                E.Or(E.length(W.tokens) > 0, W.cond))
