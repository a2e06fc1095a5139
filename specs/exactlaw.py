"""The exact law of code that draws from a random generator: every outcome of
its discrete draws is enumerated with its probability."""
import itertools
import math

import numpy as np


class TooMany(Exception):
    pass


class NotDiscrete(Exception):
    pass


class TreeRng(object):
    """Follows a prefix of decided draws; undecided draws take option 0.
    Continuous draws come from a seeded generator (allowed only if asked)."""

    def __init__(self, prefix, seed=None):
        self.prefix = prefix
        self.trace = []          # (choice, number of options)
        self.p = 1.
        self._rng = None if seed is None else np.random.RandomState(seed)

    def __deepcopy__(self, memo):
        return self

    def _pick(self, probs):
        probs = [float(q) for q in probs]
        tot = sum(probs)
        if not abs(tot - 1) < 1e-6 or min(probs) < 0:
            raise ValueError('probabilities do not sum to 1')
        opts = [i for i, q in enumerate(probs) if q > 1e-14]
        n = len(self.trace)
        j = self.prefix[n] if n < len(self.prefix) else 0
        self.trace.append((j, len(opts)))
        self.p *= probs[opts[j]]
        return opts[j]

    def _one(self, a, p):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        p = [1. / len(a)] * len(a) if p is None else list(p)
        if len(p) != len(a):
            raise ValueError("'a' and 'p' must have same size")
        return a[self._pick(p)]

    def choice(self, a, size=None, replace=True, p=None):
        if size is None:
            return self._one(a, p)
        n = int(np.prod(size))
        if not replace:
            if p is not None:
                raise NotDiscrete('weighted choice without replacement')
            a = list(range(a)) if isinstance(a, (int, np.integer)) \
                else list(a)
            if n > len(a):
                raise ValueError('larger sample than population')
            return np.array([a.pop(self._pick([1. / len(a)] * len(a)))
                             for _ in range(n)], dtype=int if all(
                isinstance(x, (int, np.integer)) for x in a) else None
                ).reshape(size)
        return np.array([self._one(a, p) for _ in range(n)]).reshape(size)

    def permutation(self, a):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        out = []
        while a:
            out.append(a.pop(self._pick([1. / len(a)] * len(a))))
        return np.array(out)

    def shuffle(self, a):
        a[:] = list(self.permutation(list(a)))

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if high - low > 50:
            if self._rng is None:
                raise NotDiscrete('randint')
            return self._rng.randint(low, high, size=size)
        return self.choice(high - low, size=size) + low

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise NotDiscrete('multinomial')
        out = [0] * len(pvals)
        for _ in range(n):
            out[self._pick(pvals)] += 1
        return np.array(out)

    def binomial(self, n, p, size=None):
        if size is not None:
            raise NotDiscrete('binomial')
        return sum(self._pick([1 - p, p]) for _ in range(n))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if self._rng is None:
            raise NotDiscrete(name)
        return getattr(self._rng, name)


def law(run, limit=4000, seed=None):
    """run(rng) -> hashable outcome.  {outcome: probability}"""
    out = {}
    prefix = []
    n = 0
    while True:
        n += 1
        if n > limit:
            raise TooMany()
        rng = TreeRng(prefix, seed)
        o = run(rng)
        out[o] = out.get(o, 0.) + rng.p
        t = rng.trace
        k = len(t) - 1
        while k >= 0 and t[k][0] + 1 >= t[k][1]:
            k -= 1
        if k < 0:
            return out
        prefix = [c for c, _ in t[:k]] + [t[k][0] + 1]


def chi_tail(counts, law_, n):
    """p-value of a chi-square test, small cells pooled."""
    from scipy.stats import chi2
    extra = sum(c for o, c in counts.items() if law_.get(o, 0) <= 1e-15)
    if extra:
        return 0.
    items = sorted(law_.items(), key=lambda t: t[1])
    cells, e, o = [], 0., 0
    for k, p in items:
        e += n * p
        o += counts.get(k, 0)
        if e >= 8:
            cells.append((e, o))
            e, o = 0., 0
    if e or o:
        if cells:
            a, b = cells.pop()
            e, o = e + a, o + b
        cells.append((e, o))
    if len(cells) < 2:
        return 1.
    x = sum((b - a) ** 2 / a for a, b in cells)
    return float(chi2.sf(x, len(cells) - 1))


def ensure_law(E, name, run, want, limit=4000, seed=None, samples=3000):
    """run(rng) has exactly the law `want`; when its draws cannot be
    enumerated, a chi-square test at level 1e-10."""
    want = dict((k, p) for k, p in want.items() if p > 1e-13)
    tot = sum(want.values())
    want = dict((k, p / tot) for k, p in want.items())
    try:
        got = law(run, limit, seed)
        got = dict((k, p) for k, p in got.items() if p > 1e-13)
        E.ensure(name + ' (exact law)',
                 set(got) == set(want) and all(
                     abs(got[k] - want[k]) < 1e-7 for k in want),
                 'law %r, expected %r' % (short(got), short(want)))
    except (NotDiscrete, TooMany):
        rng = np.random.RandomState(E.r.randint(2 ** 31))
        counts = {}
        for _ in range(samples):
            o = run(rng)
            counts[o] = counts.get(o, 0) + 1
        E.ensure(name + ' (%d samples, level 1e-10)' % samples,
                 chi_tail(counts, want, samples) > 1e-10,
                 'counts %r, expected law %r' % (short(counts), short(want)))


def short(d):
    return dict(sorted(d.items(), key=lambda t: -t[1])[:12])


def lognorm(w):
    """{k: log weight} -> {k: probability}"""
    m = max(w.values())
    e = dict((k, math.exp(v - m)) for k, v in w.items())
    s = sum(e.values())
    return dict((k, v / s) for k, v in e.items())


def partitions(items):
    """All set partitions of a list, as tuples of labels in first-seen
    order."""
    n = len(items)

    def rec(i, labels, top):
        if i == n:
            yield tuple(labels)
            return
        for z in range(top + 1):
            for p in rec(i + 1, labels + [z], max(top, z + 1)):
                yield p
    return list(rec(0, [], 0))


def canon(labels):
    """Relabel in first-seen order."""
    m = {}
    return tuple(m.setdefault(z, len(m)) for z in labels)


def sizes(labels):
    out = {}
    for z in labels:
        out[z] = out.get(z, 0) + 1
    return out


def log_crp(labels, alpha):
    """log probability of a partition under the CRP."""
    lp, n = 0., len(labels)
    for c in sizes(labels).values():
        lp += math.log(alpha) + math.lgamma(c)
    for i in range(n):
        lp -= math.log(alpha + i)
    return lp
