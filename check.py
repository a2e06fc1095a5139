#!/opt/venv/bin/python
"""Decide one property against /repo's working tree.

  check.py PROPERTY            exit 0: holds; exit 1: VIOLATION line
  check.py --replay FILE       rerun a recorded failing input
"""
import json
import os
import pickle
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'

TRUSTED = [
    'lib2to3 translation of the Python 2 sources (vf/translate.py): syntax, '
    'classic division, list-returning builtins; nothing is dropped',
    'vf symbolic executor: CPython runs the translated code on proxy values; '
    'branch feasibility and obligations by z3, algebraic normal forms by '
    'sympy, cvc5 as a second solver',
    'loop and comprehension templates of vf/loops.py and vf/coll.py (the '
    'inductive step for a generic element)',
    'floating point is read as real arithmetic plus explicit inf/nan',
    'CPython semantics of dict/list/int; numpy, scipy and math functions '
    'obey the contracts listed under library_contracts',
]


def start(mode, prop, out, opt):
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1')
    return subprocess.Popen(
        [PY, '-m', 'vf.worker', mode, prop, out, json.dumps(opt)], cwd=HERE,
        env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
        start_new_session=True)


def finish(proc, out, seconds):
    try:
        _, err = proc.communicate(timeout=seconds)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, 9)
        except OSError:
            pass
        _, err = proc.communicate()
    try:
        with open(out, 'rb') as f:
            return pickle.load(f), None
    except (OSError, EOFError):
        return None, (err or b'').decode('utf-8', 'replace')[-3000:]


def bad_obligations(r):
    return [o for o in r.get('obligations', []) if o['status'] != 'proved']


def failed(r):
    return 'crash' in r or r.get('errors') or bad_obligations(r)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    if not rec.get('input'):
        print(json.dumps(rec, indent=1))
        return 1
    from vf import worker
    worker.setup('con')
    worker.load_specs()
    from vf import spec
    v = rec['input']
    for u in spec.UNITS[rec['property']]:
        if u.id == v['unit']:
            st, E, det = spec.trial(u, v['seed'], v['given'], v['trial'])
            print(st)
            if det:
                print(json.dumps(det, indent=1, default=repr))
            return 1 if st == 'violation' else 0
    print('no such unit')
    return 2


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 780
    left = lambda: budget - (time.time() - t0)
    thorough = tier == 'thorough'
    tmp = tempfile.mkdtemp(prefix='vfc')
    so, co = os.path.join(tmp, 's'), os.path.join(tmp, 'c')
    ps = start('sym', prop, so, dict(
        seconds=150, jobs=5, total=420, factor=1))
    pc = start('con', prop, co, dict(
        seconds=300 if thorough else 60, jobs=3, total=420, seed=seed,
        mult=10 if thorough else 1))
    sres, serr = finish(ps, so, 480)
    cres, cerr = finish(pc, co, max(10, 500 - (time.time() - t0)))
    problems = []       # (unit, obligation, detail) of the verifier
    sym, con = {}, {}
    if sres is None:
        problems.append((prop, 'the verifier can be run on the tree', serr))
    else:
        sym = dict((r['unit'], r) for r in sres['results'])
        if sres['import_error']:
            problems.append((prop, 'the code under contract can be loaded',
                             sres['import_error']))
    if cres is None:
        problems.append((prop, 'the contracts can be run on the tree', cerr))
    else:
        con = dict((r['unit'], r) for r in cres['results'])
        if cres['import_error']:
            problems.append((prop, 'the code under contract can be loaded',
                             cres['import_error']))
        for r in cres['results']:
            if 'crash' in r:
                problems.append((r['unit'], 'the contract unit can be run',
                                 r['crash'] + '\n' + r.get('tb', '')))
    violation = None
    findings = []
    from vf import knownfindings
    known = knownfindings.load()
    for r in con.values():
        v = r.get('violation')
        if not v:
            continue
        k = known.get((prop, r['unit']))
        if k:
            findings.append((k, v))
        elif violation is None:
            violation = v
    # undecided or failed obligations: a larger budget, then a search for a
    # failing input guided by the counter-models
    open_units = sorted(u for u, r in sym.items() if failed(r))
    retried = []
    if open_units and violation is None and left() > 60:
        so2 = so + '2'
        lim = min(240, left() / 2)
        p = start('sym', prop, so2, dict(
            seconds=lim, jobs=8, total=lim, factor=4, only=open_units))
        r2, _ = finish(p, so2, lim + 60)
        retried = open_units
        for r in (r2 or {}).get('results', []):
            if not failed(r) or 'crash' not in r:
                sym[r['unit']] = r
        open_units = sorted(u for u, r in sym.items() if failed(r))
    for u in open_units:
        r = sym[u]
        if 'crash' in r:
            problems.append((u, 'the verifier ends', r['crash']))
        for e in r.get('errors') or []:
            problems.append((u, 'the code is within the verifier\'s reach',
                             e))
        for o in bad_obligations(r):
            problems.append((u, o['name'], dict(
                status=o['status'], goal=o['goal'], path=o['pc'],
                model=o['model'], where=o.get('where'))))
    searched = 0
    if problems and violation is None and left() > 30:
        givens = {}
        for u in open_units:
            ms = [o['model'] for o in bad_obligations(sym[u]) if o['model']]
            givens[u] = ms[:6]
        lim = min(150, left() - 20)
        co2 = co + '2'
        p = start('con', prop, co2, dict(
            seconds=lim / 2, jobs=8, total=lim, seed='search%d' % seed,
            mult=25, givens=givens))
        r2, _ = finish(p, co2, lim + 60)
        for r in (r2 or {}).get('results', []):
            searched += sum(r.get('counts', {}).values())
            if r.get('violation') and violation is None and not known.get(
                    (prop, r['unit'])):
                violation = r['violation']
    obl = [o for r in sym.values() for o in r.get('obligations', [])]
    done = [o for o in obl if o['status'] == 'proved']
    from vf import worker, spec
    worker.load_specs()
    units = spec.UNITS.get(prop, [])
    proved_units = [u for u in units if u.prove and u.id in sym
                    and not failed(sym[u.id])]
    if not units or (any(u.prove for u in units) and not obl):
        problems.append((prop, 'vacuity: at least one obligation', ''))
    bounded_units = [u for u in units if not u.prove]
    evals = sum(r.get('counts', {}).get('ok', 0) + r.get('counts', {}).get(
        'violation', 0) for r in con.values())
    if not evals and violation is None:
        problems.append((prop, 'vacuity: at least one evaluation', ''))
    backends = {}
    for o in done:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    level = 'proof' if any(u.prove for u in units) else 'exploration'
    cov = dict(
        obligations=len(obl), discharged=len(done),
        checker_cmd='%s check.py %s' % (PY, prop), trusted_base=TRUSTED,
        by_backend=backends,
        solver_seconds=round(sum(r.get('solver', 0) for r in sym.values())
                             + sum(o['seconds'] for o in obl), 2),
        paths=sum(r.get('paths', 0) for r in sym.values()),
        functions_under_contract=sorted(set(
            t for u in proved_units for t in u.targets)),
        units_proved=[u.id for u in proved_units],
        units_bounded=[dict(unit=u.id, bound=u.bounded,
                            functions=list(u.targets))
                       for u in bounded_units],
        lemmas=sorted(set(x for r in sym.values()
                          for x in r.get('lemmas', []))),
        callee_contracts=sorted(set(x for r in sym.values()
                                    for x in r.get('stubs', []))),
        library_contracts=sorted(set(x for r in sym.values()
                                     for x in r.get('used', []))),
        retried_with_larger_budget=retried,
        evaluations=evals,
        distinct_nontrivial=sum(r.get('distinct', 0) for r in con.values()),
        rule='each evaluation draws one state satisfying the precondition of '
             'a contract unit and checks its postconditions on the real '
             'code; distinct: different draws; states failing the '
             'precondition are not counted',
        search_evaluations=searched,
        samples=[s for r in con.values() for s in r.get('samples', [])][:5],
        source_files=sorted(set((sres or {}).get('files', [])) | set(
            (cres or {}).get('files', []))),
        explanation='obligations are discharged symbolically for all inputs '
        'on every path of the units in units_proved; units_bounded are '
        'bounded checks and not counted as proved')
    nviol = 1 if (violation or problems) else 0
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=['float rounding is outside the proofs (the '
                           'concrete runs compare with tolerance 1e-6)'],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    EV = os.environ.get('VF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    with open(os.path.join(EV, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for k, v in sorted(set((k['what'], v['unit']) for k, v in findings)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    subprocess.call(['rm', '-rf', tmp])
    print('%s: %d/%d obligations discharged, %d evaluations, %.0f s' % (
        prop, len(done), len(obl), evals, time.time() - t0))
    if not nviol:
        return 0
    rp = os.path.join(EV, 'replay', '%s-%s.json' % (
        prop, 'input' if violation else 'obligation'))
    with open(rp, 'w') as f:
        json.dump(dict(property=prop, input=violation,
                       failed_obligations=[
                           dict(unit=a, obligation=b, verifier=c)
                           for a, b, c in problems[:20]]),
                  f, indent=1, default=repr)
    if violation:
        print('failing unit %s: %s: %s' % (
            violation['unit'], violation['obligation'],
            str(violation.get('detail'))[:300]))
    for a, b, c in problems[:5]:
        print('open obligation %s: %s: %s' % (a, b, ' '.join(
            str(c).split())[:300]))
    print('VIOLATION property=%s replay=%s%s' % (
        prop, rp, '' if violation else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
