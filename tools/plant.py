"""plant(id, prop, edits, demo, needs, breaks): writes /verif/seeded/<id> and
confirms in a scratch copy that the demo tells the change."""
import json
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkdemo

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                       text=True, env=env)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def plant(sid, prop, edits, demo, needs, breaks, check=True):
    d = os.path.join(H, 'seeded', sid)
    w = '/tmp/plant_%s' % sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a',
                           os.environ.get('PLANT_REPO', '/repo'), w])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'cgpm2.py'), 'w') as f:
        f.write(mkdemo.main())
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write('import os, sys, warnings\nwarnings.simplefilter("ignore")\n'
                'sys.path.insert(0, os.path.dirname(os.path.abspath('
                '__file__)))\nimport cgpm2\n' + demo)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/sh\n# run in /repo: exit 0 when the property holds\n'
                'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  f, indent=1)
    rc, out = sh('sh %s/demo.sh' % d, w)
    if rc:
        print(sid, 'DEMO FAILS UNCHANGED', out)
        return False
    for fn, old, new in edits:
        p = os.path.join(w, fn)
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, 'EDIT', s.count(old), 'matches of', repr(old))
            return False
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', w)
    diff = subprocess.run('git diff', cwd=w, shell=True, capture_output=True,
                          text=True).stdout
    with open(os.path.join(d, 'patch.diff'), 'w') as f:
        f.write(diff)
    rc, out = sh('sh %s/demo.sh' % d, w)
    if rc == 0:
        print(sid, 'DEMO PASSES WITH THE CHANGE')
        return False
    ok = True
    if check:
        env = dict(os.environ, VF_REPO=w, VF_EVIDENCE=w + '_ev')
        rc, out2 = sh('./check.py %s' % prop, H, env)
        print(sid, 'CAUGHT' if rc == 1 else 'MISSED', '| demo:',
              out.strip().split('\n')[-1][:100], '|',
              ' || '.join(out2.strip().split('\n'))[-300:])
        ok = rc == 1
        shutil.rmtree(w + '_ev', ignore_errors=True)
    shutil.rmtree(w, ignore_errors=True)
    return ok
