"""Runs the contract units of one property, one forked child per unit.

python -m vf.worker sym|con PROPERTY OUT.json [options as JSON]
"""
import hashlib
import json
import os
import pickle
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter('ignore')


def load_specs():
    import importlib
    import pkgutil
    import specs
    for m in sorted(x.name for x in pkgutil.iter_modules(specs.__path__)):
        importlib.import_module('specs.' + m)


def setup(mode):
    from vf import deps, loader  # noqa: F401
    if mode == 'sym':
        from vf import instrument, shims, loops

        def pre(m):
            shims.pre_module(m)
            m.__dict__.update(loops.NAMES)
        return loader.install(symbolic=instrument.instrument, pre=pre,
                              post=shims.patch_module)
    return loader.install()


def seed_of(base, uid, i):
    h = hashlib.sha256(('%s|%s|%s' % (base, uid, i)).encode()).digest()
    return int.from_bytes(h[:4], 'big')


def run_sym(u, opt):
    from vf import prove, sym, symenv
    f = opt.get('factor', 1)
    prove.Budget.z3_ms = 8000 * f
    prove.Budget.side_ms = 2000 * f
    sym.FEAS_MS[0] = 500 * f
    return symenv.explore(u, max_paths=300 * f, seconds=opt['seconds'])


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)[:200]


def run_con(u, opt):
    from vf import spec
    t0 = time.time()
    out = dict(unit=u.id, bounded=u.bounded, counts={}, samples=[],
               violation=None, checked=0, distinct=0)
    seen = set()
    n = int(u.trials * opt.get('mult', 1)) or 1
    i = 0
    givens = opt.get('givens', {}).get(u.id, [])
    jobs = [(seed_of(opt['seed'], u.id, 'g%d' % j), g, j % 5)
            for g in givens for j in range(5)]
    while True:
        if jobs:
            seed, given, k = jobs.pop(0)
        else:
            # cheap units without a proof are tried more often
            if i >= (6 * n if u.bounded and time.time() - t0 < 3 else n) \
                    or time.time() - t0 > opt['seconds']:
                break
            seed, given, k = seed_of(opt['seed'], u.id, i), None, i
            i += 1
        st, E, det = spec.trial(u, seed, given, k)
        out['counts'][st] = out['counts'].get(st, 0) + 1
        if st == 'reject':
            continue
        out['checked'] += E.checked
        key = repr(E.draws)
        seen.add(hashlib.md5(key.encode()).hexdigest())
        if len(out['samples']) < 1 and st == 'ok':
            out['samples'].append(dict(
                unit=u.id, seed=seed,
                draws=dict((a, jsonable(b))
                           for a, b in list(E.draws.items())[:20])))
        if st == 'violation':
            out['violation'] = dict(
                unit=u.id, seed=seed, trial=k,
                given=given, draws=dict(
                    (a, jsonable(b)) for a, b in E.draws.items()), **det)
            break
    out['distinct'] = len(seen)
    out['seconds'] = time.time() - t0
    return out


def child(u, mode, opt, path):
    try:
        r = run_sym(u, opt) if mode == 'sym' else run_con(u, opt)
    except BaseException as ex:
        r = dict(unit=u.id, crash='%s: %s' % (type(ex).__name__, ex),
                 tb=traceback.format_exc()[-2000:])
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(r, f)
    os.rename(path + '.tmp', path)


def schedule(units, mode, opt):
    """Fork one child per unit, at most opt['jobs'] at a time."""
    tmp = tempfile.mkdtemp(prefix='vfw')
    todo = list(units)
    running, results = {}, []
    hard = (2 if mode == 'sym' else 1) * opt['seconds'] + 60
    end = time.time() + opt.get('total', 800)
    while todo or running:
        while todo and len(running) < opt['jobs'] and time.time() < end:
            u = todo.pop(0)
            path = os.path.join(tmp, hashlib.md5(u.id.encode()).hexdigest())
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                    child(u, mode, opt, path)
                    code = 0
                finally:
                    os._exit(code)
            running[pid] = (u, path, time.time())
        if todo and time.time() >= end:
            for u in todo:
                results.append(dict(unit=u.id, crash='not run: out of time'))
            todo = []
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in running:
            u, path, _ = running.pop(pid)
            results.append(collect(u, path))
            continue
        now = time.time()
        for pid, (u, path, t) in list(running.items()):
            if now - t > hard or now > end + 30:
                try:
                    os.killpg(pid, 9)
                except OSError:
                    pass
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                del running[pid]
                r = collect(u, path)
                results.append(r)
        time.sleep(.01)
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    return results


def collect(u, path):
    try:
        with open(path, 'rb') as f:
            r = pickle.load(f)
        os.unlink(path)
        return r
    except (OSError, EOFError, pickle.PickleError):
        return dict(unit=u.id, crash='worker ended without a result')


def main():
    mode, prop, out = sys.argv[1:4]
    opt = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    opt.setdefault('seconds', 240)
    opt.setdefault('jobs', 4)
    opt.setdefault('seed', 1)
    finder = setup(mode)
    load_specs()
    from vf import spec
    units = spec.UNITS.get(prop, [])
    only = opt.get('only')
    if only is not None:
        units = [u for u in units if u.id in only]
    if mode == 'sym':
        units = [u for u in units if u.prove]
    else:
        units = [u for u in units if u.trials]
    # import the code under contract once, before forking
    err = None
    mods = sorted(set(t.split(':')[0] for u in units for t in u.targets))
    import importlib
    for m in mods:
        try:
            importlib.import_module(m)
        except Exception as ex:
            err = '%s: %s: %s' % (m, type(ex).__name__, ex)
    res = schedule(units, mode, opt)
    files = sorted(set(p for p, _, _ in finder.sources.values()))
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(dict(results=res, files=files, import_error=err), f)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    main()
