"""Refactoring study: refactor.py N SEED [FILE...] applies N random edits that
change no behaviour to each file, one at a time, and runs every check of the
file.  Any report is a false alarm (hard, or "nofail" when it says so)."""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from mutate import MAP, H


def parse(text):
    t = re.sub(r'(?m)^(\s*)print ', r'\1p and ', text)
    t = re.sub(r'def (\w+)\(\(([^()]*)\)\)', r'def \1( \2 )', t)
    return ast.parse(t)


def seg(text, n):
    return ast.get_source_segment(text, n)


class Edit(object):
    def __init__(self, text):
        self.lines = text.split('\n')

    def replace(self, node, new):
        """Replace the lines of a statement with new lines."""
        a, b = node.lineno - 1, node.end_lineno
        ind = re.match(r'\s*', self.lines[a]).group()
        self.lines[a:b] = [ind + l for l in new.split('\n')]
        return '\n'.join(self.lines)


def loops(comp, leaf):
    """The comprehension as nested for loops around the line leaf."""
    out, d = [], 0
    for g in comp.generators:
        out.append('    ' * d + 'for %s in %s:' % (
            ast.unparse(g.target).strip('()') if isinstance(
                g.target, ast.Tuple) else ast.unparse(g.target),
            ast.unparse(g.iter)))
        d += 1
        for c in g.ifs:
            out.append('    ' * d + 'if %s:' % ast.unparse(c))
            d += 1
    out.append('    ' * d + leaf)
    return '\n'.join(out)


def comp_loop(name, v):
    e = ast.unparse
    if isinstance(v, ast.ListComp):
        return '%s = []\n%s' % (name, loops(v, '%s.append(%s)' % (
            name, e(v.elt))))
    if isinstance(v, ast.DictComp):
        return '%s = {}\n%s' % (name, loops(v, '%s[%s] = %s' % (
            name, e(v.key), e(v.value))))
    if isinstance(v, ast.SetComp):
        return '%s = set()\n%s' % (name, loops(v, '%s.add(%s)' % (
            name, e(v.elt))))
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and len(
            v.args) == 1 and not v.keywords and isinstance(
                v.args[0], (ast.GeneratorExp, ast.ListComp)):
        g = v.args[0]
        if v.func.id in ('all', 'any') and len(g.generators) == 1:
            t = v.func.id == 'any'
            cond = e(g.elt) if t else 'not (%s)' % e(g.elt)
            body = loops(g, 'if %s:' % cond).split('\n')
            d = re.match(r'\s*', body[-1]).group() + '    '
            return '%s = %s\n%s' % (name, not t, '\n'.join(
                body + [d + '%s = %s' % (name, t), d + 'break']))
        if v.func.id == 'sum':
            return '%s = 0\n%s' % (name, loops(g, '%s = %s + (%s)' % (
                name, name, e(g.elt))))
    return None


def edits(text):
    """[(kind, line, new text)]"""
    tree = parse(text)
    out = []
    e = ast.unparse

    def add(kind, node, new):
        out.append((kind, node.lineno, Edit(text).replace(node, new)))

    for cls in ast.walk(tree):
        for f in getattr(cls, 'body', []) if isinstance(
                cls, (ast.ClassDef, ast.Module)) else []:
            if not isinstance(f, ast.FunctionDef):
                continue
            if 'print ' in (seg(text, f) or ''):
                continue
            method = isinstance(cls, ast.ClassDef)
            deco = [e(d) for d in f.decorator_list]
            args = [a.arg for a in f.args.args]
            gen = any(isinstance(x, (ast.Yield,)) for x in ast.walk(f))
            if not any(d in ('staticmethod', 'classmethod') for d in deco) \
                    and not f.args.vararg and not f.args.kwarg and args and \
                    not gen and '((' not in text.split('\n')[f.lineno - 1] \
                    and f.name not in ('__init__',):
                body = f.body[0].lineno
                head = '\n'.join(text.split('\n')[f.lineno - 1:body - 1])
                ind = ' ' * f.col_offset
                call = '%s%s(%s)' % (
                    'self.' if method else '', '_do_' + f.name.strip('_'),
                    ', '.join(args[1:] if method else args))
                if (not method or args[0] == 'self') and f.body[0].lineno \
                        > f.lineno:
                    L = text.split('\n')
                    new = L[:body - 1] + [
                        ind + '    return ' + call, '',
                        ind + 'def _do_%s(%s):' % (
                            f.name.strip('_'), ', '.join(args))] + L[body - 1:]
                    out.append(('helper', f.lineno, '\n'.join(new)))
            # locals renamed
            loc = set(n.id for n in ast.walk(f) if isinstance(n, ast.Name)
                      and isinstance(n.ctx, ast.Store)) - set(args)
            inner = set(a.arg for g in ast.walk(f) if isinstance(
                g, (ast.FunctionDef, ast.Lambda)) for a in g.args.args)
            loc -= inner
            kw = set(k.arg for c in ast.walk(f) if isinstance(c, ast.Call)
                     for k in c.keywords)
            for v in sorted(loc):
                L = text.split('\n')
                pos = sorted(((n.lineno, n.col_offset) for n in ast.walk(f)
                              if isinstance(n, ast.Name) and n.id == v),
                             reverse=True)
                for a, b in pos:
                    l = L[a - 1]
                    if l[b:b + len(v)] != v:
                        break
                    L[a - 1] = l[:b] + v + '_here' + l[b + len(v):]
                else:
                    out.append(('rename', f.lineno, '\n'.join(L)))
            for s in ast.walk(f):
                if not isinstance(s, ast.stmt):
                    continue
                if isinstance(s, ast.Return) and s.value is not None \
                        and not isinstance(s.value, ast.Name):
                    add('retvar', s, 'answer = %s\nreturn answer' % e(s.value))
                    v = comp_loop('answer', s.value)
                    if v:
                        add('loop', s, v + '\nreturn answer')
                    if isinstance(s.value, ast.IfExp):
                        add('ifexp', s, 'if %s:\n    return %s\nreturn %s' % (
                            e(s.value.test), e(s.value.body),
                            e(s.value.orelse)))
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    t = e(s.targets[0])
                    if isinstance(s.targets[0], ast.Name) and t not in [
                            n.id for n in ast.walk(s.value)
                            if isinstance(n, ast.Name)]:
                        v = comp_loop(t, s.value)
                        if v:
                            add('loop', s, v)
                    if isinstance(s.value, ast.IfExp):
                        add('ifexp', s,
                            'if %s:\n    %s = %s\nelse:\n    %s = %s' % (
                                e(s.value.test), t, e(s.value.body), t,
                                e(s.value.orelse)))
                    if not isinstance(s.value, (ast.Name, ast.Constant)) \
                            and not isinstance(s.targets[0], (ast.Name,
                                                              ast.Tuple)):
                        add('temp', s, 'fresh = %s\n%s = fresh' % (
                            e(s.value), t))
                if isinstance(s, ast.AugAssign) and isinstance(
                        s.op, (ast.Add, ast.Sub)) and not isinstance(
                            s.value, ast.List):
                    t = e(s.target)
                    add('aug', s, '%s = %s %s (%s)' % (
                        t, t, '+' if isinstance(s.op, ast.Add) else '-',
                        e(s.value)))
                if isinstance(s, ast.If) and s.orelse:
                    add('negif', s, e(ast.If(ast.UnaryOp(
                        ast.Not(), s.test), s.orelse, s.body)))
                if isinstance(s, ast.If) and not s.orelse:
                    add('elsepass', s, e(ast.If(ast.UnaryOp(
                        ast.Not(), s.test), [ast.Pass()], s.body)))
                if isinstance(s, ast.If) and not s.orelse and isinstance(
                        s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                    inn = ast.If(ast.BoolOp(ast.And(), s.test.values[1:])
                                 if len(s.test.values) > 2
                                 else s.test.values[1], s.body, [])
                    add('nestif', s, e(ast.If(s.test.values[0], [inn], [])))
                if isinstance(s, ast.Assert):
                    pass
                if isinstance(s, ast.For):
                    it = s.iter
                    if isinstance(it, ast.Call) and isinstance(
                            it.func, ast.Attribute) and it.func.attr in (
                                'itervalues', 'values') and not it.args:
                        m = e(it.func.value)
                        new = ast.For(ast.Name('key_', ast.Store()),
                                      ast.Name('THEMAP', ast.Load()),
                                      [ast.Assign([s.target], ast.Name(
                                          'THEITEM', ast.Load()), lineno=0)]
                                      + s.body, s.orelse, lineno=0)
                        ast.fix_missing_locations(new)
                        add('itervalues', s, e(new).replace(
                            'THEMAP', m).replace('THEITEM', m + '[key_]'))
                    if isinstance(it, ast.Call) and isinstance(
                            it.func, ast.Attribute) and it.func.attr in (
                                'iteritems', 'items') and isinstance(
                                    s.target, ast.Tuple):
                        m = e(it.func.value)
                        k, v = s.target.elts
                        if isinstance(k, ast.Name):
                            new = ast.For(k, ast.Name('THEMAP', ast.Load()),
                                          [ast.Assign([v], ast.Name(
                                              'THEITEM', ast.Load()),
                                              lineno=0)] + s.body, s.orelse,
                                          lineno=0)
                            ast.fix_missing_locations(new)
                            add('iteritems', s, e(new).replace(
                                'THEMAP', m).replace('THEITEM', '%s[%s]' % (
                                    m, k.id)))
                # first argument of a call into a variable
                if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and \
                        isinstance(s.value, ast.Call) and s.value.args and \
                        isinstance(s.value.args[0], (ast.Call, ast.ListComp,
                                                     ast.BinOp)):
                    a = s.value.args[0]
                    old = s.value.args[0]
                    s.value.args[0] = ast.Name('first', ast.Load())
                    new = 'first = %s\n%s' % (e(a), e(s))
                    s.value.args[0] = old
                    add('argvar', s, new)
            # swap two neighbouring independent simple assignments
            for blk in [f.body] + [x.body for x in ast.walk(f) if isinstance(
                    x, (ast.If, ast.For))]:
                for a, b in zip(blk, blk[1:]):
                    if all(isinstance(x, ast.Assign) for x in (a, b)) and not \
                            any(isinstance(n, (ast.Call, ast.Subscript))
                                for x in (a, b) for n in ast.walk(x)):
                        wa = set(e(t) for t in a.targets)
                        wb = set(e(t) for t in b.targets)
                        ra, rb = e(a.value), e(b.value)
                        if not any(w in rb for w in wa) and not any(
                                w in ra for w in wb) and not wa & wb:
                            L = text.split('\n')
                            x = L[a.lineno - 1:a.end_lineno]
                            y = L[b.lineno - 1:b.end_lineno]
                            L[a.lineno - 1:b.end_lineno] = y + L[
                                a.end_lineno:b.lineno - 1] + x
                            out.append(('swap', a.lineno, '\n'.join(L)))
    for a, b in ((r'\.iteritems\(\)', '.items()'), (r'\bxrange\(', 'range('),
                 (r'\.itervalues\(\)', '.values()'),
                 (r'\.iterkeys\(\)', '.keys()'),
                 (r'\.keys\(\)', '.iterkeys()') if False else (
                     r'\bin self\.(\w+):', r'in list(self.\1):')):
        for m in re.finditer(a, text):
            out.append(('text', text[:m.start()].count('\n') + 1,
                        text[:m.start()] + m.expand(b) + text[m.end():]))
    good = []
    for k, l, t in out:
        try:
            parse(t)
        except SyntaxError:
            continue
        if t != text:
            good.append((k, l, t))
    return good


def run(j, job):
    fn, kind, line, text = job
    w = '/tmp/ref_%d_%d' % (os.getpid(), j)
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    open(os.path.join(w, fn), 'w').write(text)
    diff = subprocess.run('git diff -U0', cwd=w, shell=True,
                          capture_output=True, text=True).stdout
    env = dict(os.environ, VF_REPO=w, VF_EVIDENCE=w + '_ev')
    res = []
    for prop in MAP[fn]:
        try:
            q = subprocess.run(['./check.py', prop], cwd=H, env=env,
                               capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            res.append(prop + ' TIMEOUT')
            continue
        if q.returncode == 1:
            hard = [l for l in q.stdout.split('\n') if 'VIOLATION' in l
                    and 'no-failing-input' not in l]
            res.append(prop + (' HARD ' if hard else ' nofail '))
            fail = [l[:150] for l in q.stdout.split('\n')
                    if l.startswith(('FAILED', 'UNDECIDED', '  '))]
            res += fail[:4]
        elif q.returncode:
            res.append('%s RC%d' % (prop, q.returncode))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(w + '_ev', ignore_errors=True)
    return job, diff, res


if __name__ == '__main__':
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or sorted(MAP)
    rnd = random.Random(seed)
    todo = []
    for f in files:
        text = open('/repo/' + f).read()
        m = edits(text)
        rnd.shuffle(m)
        seen, took = {}, []
        for x in m:
            if seen.get(x[0], 0) * 6 < n and len(took) < n:
                seen[x[0]] = seen.get(x[0], 0) + 1
                took.append((f,) + x)
        todo += took
    rnd.shuffle(todo)
    if os.environ.get('DRY'):
        for x in todo:
            print(x[0], x[1], x[2])
        sys.exit()
    ex = ThreadPoolExecutor(int(os.environ.get('JOBS', 3)))
    for job, diff, res in ex.map(lambda a: run(*a), enumerate(todo)):
        print('%s %s %s:%d' % ('ALARM' if res else 'quiet', job[1], job[0],
                               job[2]), flush=True)
        if res:
            print('   ' + '\n   '.join(res))
            print('\n'.join('      ' + l for l in diff.split('\n')[4:]),
                  flush=True)
