"""Mutation study: mutate.py N SEED [FILE...] applies N random one-line
changes to copies of /repo, one at a time, and runs the checks of the file
until one of them reports a violation.  Survivors are printed."""
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRIM = ['C01', 'C03', 'C04', 'C02', 'C05']
MAP = {
    'src/crosscat/state.py': ['C13', 'C12', 'C16', 'C14', 'C15', 'C18', 'C21', 'C31'],
    'src/crosscat/sampling.py': ['C12', 'C21'],
    'src/crosscat/engine.py': ['C19', 'C18'],
    'src/mixtures/view.py': ['C10', 'C09', 'C11', 'C15', 'C18', 'C17'],
    'src/mixtures/dim.py': ['C08', 'C10', 'C05', 'C18'],
    'src/mixtures/relevance.py': ['C17'],
    'src/network/helpers.py': ['C20', 'C21'],
    'src/network/importance.py': ['C21', 'C20', 'C09'],
    'src/utils/general.py': ['C22', 'C07', 'C06', 'C04'],
    'src/utils/validation.py': ['C07', 'C13'],
    'src/utils/sampling.py': ['C26', 'C05'],
    'src/utils/parallel_map.py': ['C23', 'C19'],
    'src/utils/mvnormal.py': ['C22'],
    'src/regressions/linreg.py': ['C24'],
    'src/regressions/ols.py': ['C24'],
    'src/regressions/forest.py': ['C24'],
    'src/factor/factor.py': ['C25'],
    'src/kde/mvkde.py': ['C25'],
    'src/knn/mvknn.py': ['C25'],
    'src/primitives/distribution.py': PRIM,
}
for p in ('bernoulli beta categorical exponential geometric lognormal normal '
          'normal_trunc poisson vonmises').split():
    MAP['src/primitives/%s.py' % p] = PRIM
for p in ('dummy/piecewise dummy/twoway dummy/fourway dummy/trollnormal '
          'uncorrelated/directed uncorrelated/undirected uncorrelated/dots '
          'uncorrelated/linear uncorrelated/xcross uncorrelated/ring '
          'uncorrelated/uniformx uncorrelated/parabola uncorrelated/sin '
          'uncorrelated/diamond').split():
    MAP['src/%s.py' % p] = ['C27']
MAP['src/utils/config.py'] = MAP['src/utils/data.py'] = ['C28']
MAP['src/utils/entropy_estimators.py'] = ['C30']
MAP['src/venturescript/vscgpm.py'] = ['C32']
MAP['src/venturescript/vsinline.py'] = ['C32']
MAP['src/crosscat/lovecat.py'] = MAP['src/crosscat/loomcat.py'] = ['C29']
MAP['src/primitives/crp.py'] = ['C06'] + PRIM

OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<>=-])<(?![<=])', '<='),
       (r'(?<![<>=-])>(?![>=])', '>='), (r'<=', '<'), (r'>=', '>'),
       (r'\bnot in\b', 'in'), (r'(?<!for )(?<!not )\bin\b(?=.*:$)', 'not in'),
       (r'\band\b', 'or'), (r'\bor\b', 'and'), (r' \+ ', ' - '),
       (r' - ', ' + '), (r'\+= ', '-= '), (r'-= ', '+= '), (r' \* ', ' + '),
       (r' / ', ' * '), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'),
       (r'\b2\b', '1'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'),
       (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bis None\b',
                                                   'is not None'),
       (r'\bis not None\b', 'is None'), (r'\bany\(', 'all('),
       (r'\ball\(', 'any('), (r'\bif not\b', 'if'), (r'\bif\b(?! not)',
                                                      'if not'),
       (r'\btargets\b', 'constraints'), (r'\bconstraints\b', 'targets'),
       (r'\binputs\b', 'constraints'), (r'\bself\.outputs\b', 'self.inputs'),
       (r'\bkeys\(\)', 'values()'), (r'\bset\((.*)\)', r'list(\1)'),
       (r'copy\.(?:deep)?copy\((\w+)\)', r'\1'), (r'dict\((\w+)\)', r'\1'),
       (r'\[1:\]', ''), (r'\[:-1\]', ''), (r'sorted\(', 'list('),
       (r'\bor \{\}', ''), (r'\bbreak\b', 'pass'), (r'\bcontinue\b', 'pass'),
       (r'(\w+), (\w+)\)', r'\2, \1)'), (r'(^\s+)(self\.|\w+\.|del |for |assert'
                                         r'|raise |\w+ = )(.*[^\[({,:]$)',
                                         r'\1pass')]


def body_lines(text):
    out, doc = [], False
    for i, l in enumerate(text.split('\n')):
        q = l.count("'''") + l.count('"""')
        if doc or q:
            if q % 2:
                doc = not doc
            continue
        s = l.strip()
        if not s or s.startswith(('#', 'import', 'from', 'def ', 'class ',
                                  '@')) or i < 15:
            continue
        out.append(i)
    return out


def mutants(fn, rnd):
    text = open('/repo/' + fn).read()
    lines = text.split('\n')
    res = []
    for i in body_lines(text):
        for a, b in OPS:
            for m in re.finditer(a, lines[i]):
                new = lines[i][:m.start()] + m.expand(b) + lines[i][m.end():]
                if new != lines[i] and new.rstrip():
                    res.append((fn, i, lines[i], new))
    return res


def run(j, mut):
    fn, i, old, new = mut
    w = '/tmp/mut_%d' % j
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    p = os.path.join(w, fn)
    lines = open(p).read().split('\n')
    lines[i] = new
    open(p, 'w').write('\n'.join(lines))
    env = dict(os.environ, VF_REPO=w, VF_EVIDENCE=w + '_ev')
    r = None
    for prop in MAP[fn]:
        try:
            q = subprocess.run(['./check.py', prop], cwd=H, env=env,
                               capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            r = 'TIMEOUT ' + prop
            continue
        if q.returncode == 1:
            r = prop + (' nofail' if 'no-failing-input' in q.stdout else '')
            break
        if q.returncode:
            r = 'RC%d %s' % (q.returncode, prop)
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(w + '_ev', ignore_errors=True)
    return mut, r


if __name__ == '__main__':
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or sorted(MAP)
    rnd = random.Random(seed)
    todo = []
    for f in files:
        m = mutants(f, rnd)
        rnd.shuffle(m)
        seen = set()
        for x in m:
            if (x[1]) not in seen and len(seen) < n:
                seen.add(x[1])
                todo.append(x)
    rnd.shuffle(todo)
    ex = ThreadPoolExecutor(int(os.environ.get('JOBS', 3)))
    for mut, r in ex.map(lambda a: run(*a), enumerate(todo)):
        print('%-8s %s:%d\n      - %s\n      + %s' % (
            r or 'SURVIVED', mut[0], mut[1] + 1, mut[2].strip(),
            mut[3].strip()), flush=True)
