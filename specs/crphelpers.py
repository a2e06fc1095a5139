"""C07: partition priors and constraints (utils/general.py, validation.py)."""
import itertools
import math

from vf.spec import unit, bounded

G = 'cgpm.utils.general'
V = 'cgpm.utils.validation'
ANY = (Exception,)
INF = float('inf')


def gu(E):
    return E.mod(G)


def vu(E):
    return E.mod(V)


def counts(E, name='Nk'):
    """The sizes of an arbitrary number of occupied tables."""
    n = E.size(name, lo=1)
    return E.table(name, n, E.func('c', sort='int', lo=1))


@unit('C07', 'logp_crp', [G + ':logp_crp'])
def _(E):
    Nk, a = counts(E), E.real('alpha', lo=0)
    N = E.sum(Nk)
    E.ensure_eq('the log of the exchangeable partition probability',
                gu(E).logp_crp(N, Nk, a),
                E.length(Nk) * E.log(a) + E.sum(Nk, E.lgamma)
                + E.lgamma(a) - E.lgamma(N + a))


@unit('C07', 'logp_crp_unorm', [G + ':logp_crp', G + ':logp_crp_unorm'])
def _(E):
    Nk = counts(E)
    a, b = E.real('alpha', lo=0), E.real('beta', lo=0)
    N, K = E.sum(Nk), E.length(Nk)
    E.ensure_eq('the unnormalised form differs by a constant of alpha',
                gu(E).logp_crp(N, Nk, a) - gu(E).logp_crp_unorm(N, K, a),
                gu(E).logp_crp(N, Nk, b) - gu(E).logp_crp_unorm(N, K, b))


@unit('C07', 'logp_crp/chain', [G + ':logp_crp'])
def _(E):
    """Adding a customer multiplies by the seating probability."""
    Nk, a = counts(E), E.real('alpha', lo=0)
    N = E.sum(Nk)
    old = gu(E).logp_crp(N, Nk, a)
    E.ensure_eq('a fresh table has probability alpha / (N + alpha)',
                gu(E).logp_crp(N + 1, Nk + [1], a) - old,
                E.log(a) - E.log(N + a))
    c = E.int('c', lo=1)
    base = gu(E).logp_crp(N + c, Nk + [c], a)
    E.ensure_eq('a table of c customers has probability c / (N + alpha)',
                gu(E).logp_crp(N + c + 1, Nk + [c + 1], a) - base,
                E.log(c) - E.log(N + c + a))


for _m in (1, 2, 3):
    def _f(E, m=_m):
        Nk = counts(E)
        a = E.choice('alpha', [E.real('alpha', lo=0), E.int('ia', lo=1)])
        N = E.sum(Nk)
        r = gu(E).logp_crp_fresh(N, Nk if E.symbolic else list(Nk), a, m=m)
        E.ensure_eq('one weight per table and auxiliary table', E.length(r),
                    E.length(Nk) + m)
        E.ensure_eq('probabilities sum to one', E.sum(r, E.exp), 1)
        i = E.int('i', lo=0, hi=E.length(Nk))
        E.ensure_eq('an occupied table has probability n / (N + alpha)',
                    r[i], E.log(Nk[i]) - E.log(N + a))
        j = E.length(Nk)
        E.ensure_eq('an auxiliary table has probability '
                    'alpha / m / (N + alpha)',
                    r[j], E.log(a) - E.log(m) - E.log(N + a))
    unit('C07', 'logp_crp_fresh/m=%d' % _m, [G + ':logp_crp_fresh'])(_f)


for _m in (1, 2, 3):
    for _k in ('list', 'dict'):
        def _f(E, m=_m, kind=_k):
            """Customer i of any number of customers is to be seated again;
            there are any number of tables."""
            a = E.real('alpha', lo=0)
            n = E.size('customers', lo=1)
            z, i = E.func('z', sort='int', lo=0), E.int('i', lo=0)
            if kind == 'list':
                Nk = counts(E)
                K = E.length(Nk)
            else:
                c = E.func('c', sort='int', lo=1)
                Nk = E.map('Nk', lambda t: c(t))
                K = E.length(Nk)
            if not E.symbolic:
                i = i % n
                labels = list(range(K)) if kind == 'list' else sorted(Nk)
                if not labels:
                    labels = [int(E.r.randint(5))]
                    Nk[labels[0]] = 1
                    K = 1
                z = lambda j, f=z: labels[f(j) % K]
            zi = z(i)
            if E.symbolic:
                E.assume(i < n)
                E.assume(E.And(zi < K) if kind == 'list' else E.has(Nk, zi))
            Z = E.table('Z', n, z)
            got = gu(E).logp_crp_gibbs(
                Nk if E.symbolic else Nk.__class__(Nk), Z, i, a, m)
            aux = E.log(a / m)
            single = bool(Nk[zi] == 1)
            E.ensure_eq('a weight for each table and auxiliary table',
                        E.length(got), K + (m - 1 if single else m))
            order = E.indices(K) if kind == 'list' else E.keys(
                Nk) if E.symbolic else sorted(Nk)
            now = aux if single else E.log(Nk[zi] - 1)
            E.ensure_eq('tables weigh their other customers', got, E.mapped(
                lambda t: E.If(E.eq(t, zi), now, E.log(Nk[t])), order)
                + [aux] * (m - 1 if single else m))
        unit('C07', 'logp_crp_gibbs/%s/m=%d' % (_k, _m), [
            G + ':logp_crp_gibbs'], trials=40)(_f)


@bounded('C07', 'logp_crp_gibbs', [G + ':logp_crp_gibbs'], trials=150,
         bound='up to 8 customers, 4 auxiliary tables')
def _(E):
    n = E.int('n', lo=1, hi=9)
    Z = [0]
    for i in range(1, n):
        Z.append(int(E.r.randint(0, max(Z) + 2)))
    K = max(Z) + 1
    Nk = [Z.count(t) for t in range(K)]
    shift = 0
    if E.flag('dict'):
        shift = E.int('shift', lo=0, hi=4)
        Z = [z + shift for z in Z]
        Nk = dict((t + shift, c) for t, c in enumerate(Nk))
    i, m = E.int('i', lo=0, hi=n), E.int('m', lo=1, hi=5)
    a = E.real('alpha', lo=0)
    lp = list(gu(E).logp_crp_gibbs(Nk, Z, i, a, m))
    rest = [sum(1 for j in range(n) if j != i and Z[j] == t + shift)
            for t in range(K)]
    single = rest[Z[i] - shift] == 0
    want = [math.log(c) if c else math.log(a / m) for c in rest]
    want += [math.log(a / m)] * (m - 1 if single else m)
    E.ensure_eq('tables weigh their other customers, empty ones alpha / m',
                lp, want)


def rpartition(E, n):
    Z = []
    for i in range(n):
        Z.append(int(E.r.randint(0, max(Z + [-1]) + 2)))
    return Z


@bounded('C07', 'simulate_crp', [G + ':simulate_crp'], trials=80,
         bound='up to 8 customers')
def _(E):
    n = E.int('n', lo=1, hi=9)
    a = E.choice('alpha', [E.real('a', lo=0), E.int('ia', lo=1)])
    rng = E.rng()
    Z = list(gu(E).simulate_crp(n, a, rng=rng))
    E.ensure_eq('every customer is seated', len(Z), n)
    draws = rng.draws
    E.ensure_eq('the first customer needs no draw', len(draws), n - 1)
    E.ensure_eq('the first customer opens table 0', Z[0], 0)
    for i in range(1, n):
        seen = Z[:i]
        K = max(seen) + 1
        w = [seen.count(t) for t in range(K)] + [float(a)]
        d = draws[i - 1]
        E.ensure_eq('tables offered', list(d[1]['a']), list(range(K + 1)))
        E.ensure_eq('seats follow the Chinese restaurant process',
                    list(d[1]['p']), [x / float(sum(w)) for x in w])
        E.ensure_eq('the drawn table is taken', Z[i], d[2])
    E.raises(ANY, lambda: gu(E).simulate_crp(n, 0., rng=E.rng()),
             'alpha must be positive')
    E.raises(ANY, lambda: gu(E).simulate_crp(0, a, rng=E.rng()),
             'N must be positive')


def constraints(E, n, blocks=True):
    """Random consistent constraints on n customers."""
    cols = list(range(n))
    E.r.shuffle(cols)
    Cd = []
    while blocks and len(cols) >= 2 and E.r.randint(2):
        k = min(len(cols), 2 + int(E.r.randint(2)))
        Cd.append([cols.pop() for _ in range(k)])
    block = {}
    for b, c in enumerate(Cd):
        for x in c:
            block[x] = b
    Ci = []
    for a, b in itertools.combinations(range(n), 2):
        if E.r.randint(4) == 0 and (
                a not in block or block.get(a) != block.get(b)):
            Ci.append((a, b) if E.r.randint(2) else (b, a))
    return Cd, Ci


def rows(E, cols):
    """Row constraints for some columns."""
    Rd, Ri = {}, {}
    for c in cols:
        if E.r.randint(2):
            d, i = constraints(E, 4)
            if E.r.randint(2):
                Rd[c] = d
            if E.r.randint(2):
                Ri[c] = i
    return Rd, Ri


def row_conflict(Rd, Ri, a, b):
    """Do the row constraints of the columns contradict each other?"""
    if not ((a in Rd or a in Ri) and (b in Rd or b in Ri)):
        return False
    for x, y in ((a, a), (a, b), (b, a), (b, b)):
        for blk in Rd.get(x, []):
            for p, q in Ri.get(y, []):
                if p in blk and q in blk:
                    return True
    return False


def satisfies(Z, Cd, Ci, Rd, Ri):
    for b in Cd:
        if len(set(Z[x] for x in b)) != 1:
            return False
        for p, q in itertools.combinations(b, 2):
            if (p, q) in Ci or (q, p) in Ci or row_conflict(Rd, Ri, p, q):
                return False
    return all(Z[p] != Z[q] for p, q in Ci)


@bounded('C07', 'validate/partition', [
    V + ':validate_crp_constrained_partition',
    V + ':check_compatible_customers', V + ':check_compatible_constraints'],
    trials=300, bound='up to 6 customers, 4 rows')
def _(E):
    n = E.int('n', lo=1, hi=7)
    Cd, Ci = constraints(E, n)
    Rd, Ri = rows(E, range(n)) if E.r.randint(2) else ({}, {})
    Z = rpartition(E, n)
    if E.r.randint(2):
        for b in Cd:
            for x in b:
                Z[x] = Z[b[0]]
    if E.r.randint(2):
        Z = dict(enumerate(Z))
    E.ensure_eq('a partition is accepted when it meets every constraint',
                bool(vu(E).validate_crp_constrained_partition(
                    Z, Cd, Ci, Rd, Ri)), satisfies(Z, Cd, Ci, Rd, Ri))


@bounded('C07', 'validate/customers', [
    V + ':check_compatible_customers', V + ':check_compatible_constraints'],
    trials=300, bound='up to 6 customers, 4 rows')
def _(E):
    n = E.int('n', lo=2, hi=7)
    Cd, Ci = constraints(E, n)
    Rd, Ri = rows(E, range(n))
    a, b = [int(x) for x in E.r.choice(n, size=2, replace=False)]
    want = (a, b) not in Ci and (b, a) not in Ci and not row_conflict(
        Rd, Ri, a, b)
    E.ensure_eq('customers are compatible unless they or their rows are '
                'constrained apart', bool(
                    vu(E).check_compatible_customers(Cd, Ci, Ri, Rd, a, b)),
                want)


@bounded('C07', 'validate/dependency', [
    V + ':validate_dependency_constraints'], trials=200,
    bound='up to 7 customers')
def _(E):
    n = E.int('n', lo=3, hi=8)
    Cd, Ci = constraints(E, n)
    E.ensure('consistent constraints are accepted',
             vu(E).validate_dependency_constraints(
                 n if E.r.randint(2) else None, Cd, Ci))
    f = vu(E).validate_dependency_constraints
    which = E.choice('bad', ['single', 'range', 'twice', 'inblock', 'triple',
                             'irange', 'self', 'double'])
    if which == 'single':
        free = [x for x in range(n) if all(x not in b for b in Cd)]
        E.assume(free)
        Cd = Cd + [[free[0]]]
    elif which == 'range':
        Cd = Cd + [[n, n + 1]]
    elif which == 'twice':
        E.assume(Cd)
        b = Cd[-1]
        free = [x for x in range(n) if all(x not in b for b in Cd)]
        E.assume(free)
        Cd = Cd + [[free[0], b[-1]]]
    elif which == 'double':
        E.assume(Cd)
        Cd[0] = Cd[0] + [Cd[0][0]]
    elif which == 'inblock':
        E.assume(Cd)
        b = E.choice('b', Cd)
        p = [int(x) for x in E.r.choice(len(b), size=2, replace=False)]
        Ci = Ci + [(b[p[0]], b[p[1]])]
    elif which == 'triple':
        Ci = Ci + [(0, 1, 2)]
        Cd = []
    elif which == 'irange':
        Ci = Ci + [(n, 0) if E.r.randint(2) else (0, n)]
    else:
        Ci = Ci + [(1, 1)]
        Cd = [b for b in Cd if 1 not in b]
    E.raises((ValueError,), lambda: f(n, Cd, Ci),
             'inconsistent constraints (%s) are rejected' % which)


@bounded('C07', 'validate/input', [V + ':validate_crp_constrained_input'],
         trials=300, bound='up to 6 customers, 4 rows')
def _(E):
    n = E.int('n', lo=2, hi=7)
    Cd, Ci = constraints(E, n)
    Rd, Ri = rows(E, range(n))
    bad = any(row_conflict(Rd, Ri, a, b) for blk in Cd
              for a, b in itertools.combinations(blk, 2))
    bad = bad or any(row_conflict(Rd, Ri, c, c) for c in Rd)
    f = vu(E).validate_crp_constrained_input
    if bad:
        E.raises((ValueError,), lambda: f(n, Cd, Ci, Rd, Ri),
                 'columns of a block with contradictory row constraints are '
                 'rejected')
    else:
        E.ensure('consistent constraints are accepted',
                 f(n, Cd, Ci, Rd, Ri))


@bounded('C07', 'simulate_crp_constrained', [G + ':simulate_crp_constrained'],
         trials=200, bound='up to 7 customers')
def _(E):
    n = E.int('n', lo=1, hi=8)
    Cd, Ci = constraints(E, n)
    Rd, Ri = rows(E, range(n)) if E.r.randint(2) else ({}, {})
    bad = any(row_conflict(Rd, Ri, a, b) for blk in Cd
              for a, b in itertools.combinations(blk, 2))
    bad = bad or any(row_conflict(Rd, Ri, c, c) for c in Rd)
    E.assume(not bad)
    a = E.real('alpha', lo=0)
    rng = E.rng()
    Z = list(gu(E).simulate_crp_constrained(n, a, Cd, Ci, Rd, Ri, rng=rng))
    E.ensure_eq('every customer is seated', len(Z), n)
    E.ensure('the partition meets the constraints',
             satisfies(Z, Cd, Ci, Rd, Ri), Z)
    # replay: customers by number, a block of friends moves together
    friends = dict((x, b) for b in Cd for x in b)
    W = [None] * n
    draws = list(rng.draws)
    for c in range(n):
        if W[c] is not None:
            continue
        fs = friends.get(c, [c])
        K = max([w for w in W if w is not None] + [-1]) + 1
        w = []
        for t in range(K):
            at = [j for j in range(n) if W[j] == t]
            ok = not any((f, j) in Ci or (j, f) in Ci or row_conflict(
                Rd, Ri, f, j) for f in fs for j in at)
            w.append(float(len(at)) if ok else 0.)
        w.append(a)
        if len(w) > 1:
            E.ensure('one draw per customer or block', draws)
            d = draws.pop(0)
            E.ensure_eq('tables compete by their customers unless an enemy '
                        'sits there', list(d[1]['p']),
                        [x / sum(w) for x in w])
            t = int(d[2])
        else:
            t = 0
        for f in fs:
            W[f] = t
    E.ensure_eq('friends sit together', Z, W)
    E.ensure('no further draw', not draws)


@bounded('C07', 'dependent', [
    G + ':simulate_crp_constrained_dependent',
    G + ':get_crp_constrained_num_effective',
    G + ':get_crp_constrained_partition_counts',
    G + ':logp_crp_constrained_dependent'], trials=150,
    bound='up to 8 customers')
def _(E):
    n = E.int('n', lo=1, hi=9)
    Cd, _ = constraints(E, n)
    a = E.real('alpha', lo=0)
    rng = E.rng()
    Z = list(gu(E).simulate_crp_constrained_dependent(n, a, Cd, rng=rng))
    E.ensure_eq('every customer is seated', len(Z), n)
    for b in Cd:
        E.ensure('a block sits at one table', len(set(Z[x] for x in b)) == 1)
    inb = [x for b in Cd for x in b]
    free = [x for x in range(n) if x not in inb]
    eff = len(Cd) + len(free)
    E.ensure_eq('a block counts as one customer',
                gu(E).get_crp_constrained_num_effective(n, Cd), eff)
    E.ensure_eq('one draw per effective customer after the first',
                len(rng.draws), eff - 1)
    got = [0] + [int(d[2]) for d in rng.draws]
    E.ensure_eq('blocks then free customers take the simulated seats',
                [Z[b[0]] for b in Cd] + [Z[x] for x in free], got)
    Zd = dict(enumerate(Z))
    want = {}
    for x in [b[0] for b in Cd] + free:
        want[Z[x]] = want.get(Z[x], 0) + 1
    E.ensure('effective counts', dict(
        gu(E).get_crp_constrained_partition_counts(Zd, Cd)) == want)
    lp = (len(want) * math.log(a) + sum(math.lgamma(c)
                                        for c in want.values())
          + math.lgamma(a) - math.lgamma(eff + a))
    E.ensure_eq('its log probability is that of the effective partition',
                gu(E).logp_crp_constrained_dependent(Zd, a, Cd), lp)
    W = rpartition(E, n)
    if any(len(set(W[x] for x in b)) > 1 for b in Cd):
        E.ensure('a partition splitting a block has probability 0',
                 gu(E).logp_crp_constrained_dependent(
                     dict(enumerate(W)), a, Cd) == -INF)


@bounded('C07', 'partition_query', [
    V + ':partition_query_evidence', V + ':partition_list',
    V + ':partition_dict'], trials=100, bound='up to 8 keys')
def _(E):
    n = E.int('n', lo=1, hi=9)
    keys = [int(x) for x in E.r.choice(20, size=n, replace=False)]
    Z = dict((k, int(E.r.randint(4))) for k in keys)
    E.r.shuffle(keys)
    q = keys[:E.int('nq', lo=0, hi=n + 1)]
    e = keys[len(q):]
    ev = dict((k, E.choice('val', [0, None, 1.5, float('inf'), 'x']))
              for k in e)
    isdict = E.flag('dict')
    qq = dict((k, k * 2) for k in q) if isdict else list(q)
    none = E.flag('none')
    a, b = vu(E).partition_query_evidence(Z, qq, None if none else ev)
    for part, src, isd in ((a, qq, isdict), (b, {} if none else ev, True)):
        E.ensure('clusters are those with a member', set(part) == set(
            Z[k] for k in src))
        for k in part:
            if isd:
                E.ensure('a cluster gets its entries', part[k] == dict(
                    (x, src[x]) for x in src if Z[x] == k))
            else:
                E.ensure('a cluster gets its entries in order',
                         list(part[k]) == [x for x in src if Z[x] == k])
