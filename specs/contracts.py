"""Contracts used in place of callees when a caller is verified.  Each one is
discharged against the real body by the units named next to it."""


def draw_contracts(E):
    """gu.log_pflip and gu.pflip: one categorical draw with probabilities
    proportional to exp(logp) / p  (discharged by C22/log_pflip, C22/pflip)."""
    if not E.symbolic:
        return
    from vf import coll, shims, sym

    def pick(rng, items, logw):
        rng.draws.append(None)
        n = len(rng.draws)
        v = rng._choice(items)
        rng.draws[n - 1:] = [('choice', {'a': items, 'p': None,
                                         'logw': logw}, v)]
        return v

    def repeat(f, p, array, size, rng):
        if not isinstance(size, int):
            raise sym.Unsupported('a symbolic number of draws')
        return shims.symarray([f(p, array, None, rng) for _ in range(size)])

    def log_pflip(logp, array=None, size=None, rng=None):
        if rng is None:
            raise sym.Unsupported('log_pflip without rng')
        if size is not None:
            return repeat(log_pflip, logp, array, size, rng)
        if array is None:
            array = shims.range_(shims.len_(logp))
        logp = logp if isinstance(logp, coll.Family) else list(logp)
        if not isinstance(logp, coll.Family) and len(logp) == 1:
            return list(array)[0]
        return pick(rng, array, logp)

    def pflip(p, array=None, size=None, rng=None):
        if rng is None:
            raise sym.Unsupported('pflip without rng')
        if size is not None:
            return repeat(pflip, p, array, size, rng)
        if array is None:
            array = shims.range_(shims.len_(p))
        if isinstance(p, coll.Family):
            return pick(rng, array, coll.fam_map(p, sym.log))
        p = list(p)
        if len(p) == 1:
            return list(array)[0]
        return pick(rng, array, [sym.log(x) for x in p])

    E.stub('cgpm.utils.general:log_pflip', log_pflip)
    E.stub('cgpm.utils.general:pflip', pflip)
