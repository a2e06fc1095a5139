"""Writes the self-contained loader that lies beside each seeded demo."""
import os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(n):
    return open(os.path.join(H, 'vf', n + '.py')).read()
def module(name, text):
    return ('_m = types.ModuleType(%r)\nsys.modules[%r] = _m\n'
            'exec(compile(%r, %r, "exec"), _m.__dict__)\n' % (
                name, name, text, name))
def main():
    out = ['"""Loads cgpm from the Python 2 sources of /repo/src under Python 3."""',
           'import sys, types', '']
    out.append(module('c2_py2', rd('py2')))
    out.append(module('c2_tr', rd('translate')))
    t = rd('loader').replace('from . import py2\n', 'import c2_py2 as py2\n')
    t = t.replace('from . import translate as tr\n', 'import c2_tr as tr\n')
    t = t.replace("os.environ.get('VF_REPO', '/repo')", 'os.getcwd()')
    out.append(module('c2_loader', t))
    out.append("sys.modules['c2_loader'].install()\n")
    return '\n'.join(out)
if __name__ == '__main__':
    for d in sys.argv[1:]:
        with open(os.path.join(d, 'cgpm2.py'), 'w') as f:
            f.write(main())
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/sh\n# run in /repo: exit 0 when the property '
                    'holds\nexec /opt/venv/bin/python "$(dirname "$0")/'
                    'demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
