"""Writes CONTRACTS.md: every unit, the functions under contract in it, and
whether it is proved or bounded."""
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
os.environ.setdefault('VF_MODE', 'con')

if __name__ == '__main__':
    from vf import spec, worker
    worker.setup('con')
    worker.load_specs()
    out = ['# Units', '',
           'Written by `tools/contracts.py`. A *proved* unit is a contract '
           'whose obligations are discharged for all inputs by the verifier; '
           'a *bounded* unit runs the real code on generated inputs within '
           'the stated bound and is not counted as proved.', '']
    for p in sorted(spec.UNITS):
        us = spec.UNITS[p]
        b = [u for u in us if u.bounded]
        out += ['## %s: %d proved, %d bounded' % (p, len(us) - len(b), len(b)),
                '']
        for u in us:
            doc = ' '.join((u.fn.__doc__ or '').split())
            fs = ', '.join(f.split('cgpm.')[-1] for f in u.targets)
            out.append('* %s `%s`%s%s — %s' % (
                '**bounded**' if u.bounded else 'proved', u.name,
                ' (%s)' % u.bounded if isinstance(u.bounded, str) else '',
                ': ' + doc if doc else '', fs))
        out.append('')
    open(os.path.join(H, 'CONTRACTS.md'), 'w').write('\n'.join(out))
