"""Development runner: python -m vf.dev [sym|con] pattern"""
import sys, os, re, time, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import deps, loader, spec
mode, pat = sys.argv[1], sys.argv[2]
def load_specs():
    import importlib, pkgutil, specs
    for m in sorted(x.name for x in pkgutil.iter_modules(specs.__path__)):
        importlib.import_module('specs.' + m)
if mode == 'sym':
    from vf import instrument, shims, loops
    def pre(m):
        shims.pre_module(m); m.__dict__.update(loops.NAMES)
    loader.install(symbolic=instrument.instrument, pre=pre, post=shims.patch_module)
else:
    loader.install()
load_specs()
n_units = n_obl = 0
for prop in sorted(spec.UNITS):
    for u in spec.UNITS[prop]:
        if not re.search(pat, u.id): continue
        t = time.time()
        if mode == 'sym':
            if not u.prove: continue
            from vf import symenv
            r = symenv.explore(u)
            bad = [o for o in r['obligations'] if o['status'] != 'proved']
            if bad or r['errors'] or '-a' in sys.argv or time.time()-t > 20:
                print('%-40s paths=%d obl=%d bad=%d err=%d %.1fs' % (u.id, r['paths'], len(r['obligations']), len(bad), len(r['errors']), time.time()-t))
            n_units += 1; n_obl += len(r['obligations'])
            for o in bad[:4]:
                print('   BAD', o['name'], o['status'], '|', ' '.join(str(o['goal']).split())[:300], '|', o.get('where'), str(o['model'])[:200])
                if '-v' in sys.argv: print('      pc', o['pc'])
            for e in sorted(set(r['errors']))[:5]: print('   ERR', e)
        else:
            c = {}
            det = None
            for i in range(u.trials):
                st, E, d = spec.trial(u, 1000*i+7, n=i)
                c[st] = c.get(st, 0) + 1
                if st == 'violation' and det is None: det = (d, E.draws)
            n_units += 1; n_obl += c.get('ok', 0)
            if set(c) - {'ok', 'reject'} or c.get('reject', 0) > .7*u.trials or '-a' in sys.argv or time.time()-t > 10: print('%-40s %s %.1fs' % (u.id, c, time.time()-t))
            if det: print('   ', str(det)[:700])

print('units', n_units, 'obligations/ok trials', n_obl)
