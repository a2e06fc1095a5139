"""Mechanical Python 2 -> Python 3 translation of cgpm sources.

text2text : lib2to3 fixers (syntax and library renames)
tree2tree : AST pass giving the operators their Python 2 meaning

Nothing is written by hand per function: every run reads the current text of
the file and applies the same passes to all of it.
"""
import ast
import copy
import io
import os
import warnings

warnings.simplefilter('ignore', DeprecationWarning)

from lib2to3 import refactor  # noqa: E402

FIXERS = ['lib2to3.fixes.fix_' + n for n in (
    'apply', 'basestring', 'dict', 'except', 'exec', 'execfile', 'filter',
    'funcattrs', 'has_key', 'import', 'imports', 'intern', 'itertools',
    'itertools_imports', 'long', 'map', 'metaclass', 'methodattrs', 'ne',
    'next', 'nonzero', 'numliterals', 'paren', 'print', 'raise', 'raw_input',
    'reduce', 'repr', 'standarderror', 'throw', 'tuple_params', 'types',
    'unicode', 'urllib', 'xrange', 'xreadlines', 'zip')]


def _has_file(path, name):
    d = os.path.dirname(path)
    return os.path.exists(os.path.join(d, name + '.py'))


class _Tool(refactor.RefactoringTool):
    def log_error(self, msg, *args, **kw):
        raise SyntaxError(msg)

    def log_message(self, msg, *args):
        pass

    def log_debug(self, msg, *args):
        pass


_TOOL = None


def text2text(source, path):
    global _TOOL
    if _TOOL is None:
        _TOOL = _Tool(FIXERS, {'print_function': False})
    if not source.endswith('\n'):
        source += '\n'
    try:
        return str(_TOOL.refactor_string(source, path))
    except Exception:
        tool = _Tool(FIXERS, {'print_function': True})
        return str(tool.refactor_string(source, path))


_CMP = {ast.Lt: '__py2_lt__', ast.LtE: '__py2_le__',
        ast.Gt: '__py2_gt__', ast.GtE: '__py2_ge__'}


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()),
                    args=list(args), keywords=[])


class Py2Semantics(ast.NodeTransformer):
    """Division, ordering comparisons, list-comprehension scope."""

    def __init__(self, future_division):
        self.future_division = future_division
        self.counter = 0

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.future_division:
            return ast.copy_location(
                _call('__py2_div__', node.left, node.right), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == '__func__' and isinstance(node.ctx, ast.Load):
            # Class.method is an unbound method in Python 2.
            return ast.copy_location(
                _call('__py2_func__', node.value), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ('encode', 'translate') \
                and len(node.args) == 2 and not node.keywords:
            # Byte strings are text in Python 2.
            return ast.copy_location(
                _call('__py2_%s__' % f.attr, f.value, *node.args), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.future_division \
                and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_call('__py2_div__',
                            ast.Name(id=node.target.id, ctx=ast.Load()),
                            node.value)), node)
        if isinstance(node.op, ast.Div) and not self.future_division:
            if any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await))
                   for n in ast.walk(node.target)):
                raise SyntaxError('augmented / on a computed target')
            read = copy.deepcopy(node.target)
            read.ctx = ast.Load()
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_call('__py2_div__', read, node.value)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            name = _CMP.get(type(node.ops[0]))
            if name is None:
                return node
            return ast.copy_location(
                _call(name, node.left, node.comparators[0]), node)
        if not any(type(op) in _CMP for op in node.ops):
            return node
        # a < b < c  ->  (a < (t := b)) and (t < c)
        parts, left = [], node.left
        for k, (op, right) in enumerate(zip(node.ops, node.comparators)):
            last = k == len(node.ops) - 1
            if last:
                rhs, nxt = right, None
            elif isinstance(right, (ast.Name, ast.Constant)):
                rhs, nxt = right, right
            else:
                self.counter += 1
                tmp = '__cmp%d' % self.counter
                rhs = ast.NamedExpr(
                    target=ast.Name(id=tmp, ctx=ast.Store()), value=right)
                nxt = ast.Name(id=tmp, ctx=ast.Load())
            name = _CMP.get(type(op))
            if name is None:
                parts.append(ast.Compare(left=left, ops=[op],
                                         comparators=[rhs]))
            else:
                parts.append(_call(name, left, rhs))
            left = nxt
        return ast.copy_location(
            ast.BoolOp(op=ast.And(), values=parts), node)


class LeakListComps(ast.NodeTransformer):
    """Python 2 list comprehensions bind their variables in the enclosing
    scope.  Where a function reads such a name outside the comprehension,
    the comprehension is unrolled into an explicit loop expression by binding
    the name with a walrus on each element."""

    def _names(self, target):
        return [n.id for n in ast.walk(target) if isinstance(n, ast.Name)]

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        comps = [n for n in ast.walk(node) if isinstance(n, ast.ListComp)]
        if not comps:
            return node
        bound_in = {}
        for c in comps:
            inside = set(id(x) for x in ast.walk(c))
            for g in c.generators:
                for name in self._names(g.target):
                    bound_in.setdefault(name, []).append((c, inside))
        for name, cs in bound_in.items():
            anyc = set()
            for n in ast.walk(node):
                if isinstance(n, (ast.ListComp, ast.GeneratorExp,
                                  ast.SetComp, ast.DictComp, ast.Lambda)):
                    names = []
                    if isinstance(n, ast.Lambda):
                        names = [a.arg for a in n.args.args]
                    else:
                        for g in n.generators:
                            names += self._names(g.target)
                    if name in names:
                        anyc |= set(id(x) for x in ast.walk(n))
            for n in ast.walk(node):
                # the body of a loop over the name reads the loop's binding
                if isinstance(n, ast.For) and name in self._names(n.target):
                    body = set(id(x) for b in n.body for x in ast.walk(b))
                    if not any(id(c) in body for c, _ in cs):
                        anyc |= body
            outside = [n for n in ast.walk(node)
                       if isinstance(n, ast.Name) and n.id == name
                       and id(n) not in anyc
                       and isinstance(n.ctx, ast.Load)]
            stores = [n for n in ast.walk(node)
                      if isinstance(n, ast.Name) and n.id == name
                      and id(n) not in anyc
                      and isinstance(n.ctx, ast.Store)]
            params = [a.arg for a in node.args.args]
            outside = [n for n in outside
                       if not self._rebound(node, n, name, cs)]
            if not outside:
                continue
            # A read outside a comprehension that binds the same name: the
            # leak is visible only when that read is not dominated by its own
            # store; be exact by always leaking in this case.
            if name in params or stores or outside:
                for c, _ in cs:
                    self._leak(c, name)
        return node

    def _rebound(self, fn, read, name, comps):
        """Is the read preceded, in a statement list that contains it, by an
        assignment of the name, with no such comprehension in between?"""
        for blk in ast.walk(fn):
            for field in ('body', 'orelse', 'finalbody'):
                stmts = getattr(blk, field, None)
                if not isinstance(stmts, list):
                    continue
                for i, st in enumerate(stmts):
                    if any(x is read for x in ast.walk(st)):
                        break
                else:
                    continue
                if any(c is x for c, _ in comps for x in ast.walk(stmts[i])):
                    continue
                for j in range(i - 1, -1, -1):
                    if any(c is x for c, _ in comps
                           for x in ast.walk(stmts[j])):
                        break
                    if isinstance(stmts[j], ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == name
                            for t in stmts[j].targets):
                        return True
        return False

    def _leak(self, comp, name):
        # [elt for name in it]  ->  [elt for __leak_name in it
        #                            if ((name := __leak_name), True)[1]]
        if getattr(comp, '_leaked', None) is None:
            comp._leaked = set()
        if name in comp._leaked:
            return
        comp._leaked.add(name)
        for g in comp.generators:
            if name in self._names(g.target):
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name) and n.id == name:
                        n.id = '__leak_' + name
                bind = ast.Subscript(
                    value=ast.Tuple(elts=[
                        ast.NamedExpr(
                            target=ast.Name(id=name, ctx=ast.Store()),
                            value=ast.Name(id='__leak_' + name,
                                           ctx=ast.Load())),
                        ast.Constant(value=True)], ctx=ast.Load()),
                    slice=ast.Constant(value=1), ctx=ast.Load())
                g.ifs.insert(0, bind)


def translate(source, path, symbolic=None):
    future = any('division' in line and line.lstrip().startswith(
        'from __future__') for line in source.splitlines())
    text = text2text(source, path)
    tree = ast.parse(text, path)
    tree = LeakListComps().visit(tree)
    tree = Py2Semantics(future).visit(tree)
    if symbolic is not None:
        tree = symbolic(tree)
    ast.fix_missing_locations(tree)
    return tree, text
