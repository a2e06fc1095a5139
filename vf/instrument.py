"""AST pass that lets comprehensions and loops of the translated code run on
unbounded families.  Everything it inserts falls back to the original
construct when the iterable is concrete."""
import ast


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _call(f, *args):
    return ast.Call(func=_name(f), args=list(args), keywords=[])


def _lambda(arg, body):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)],
                           kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=body)


def _stores(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if n.id not in out:
                out.append(n.id)
    return out


class _Continue(ast.NodeTransformer):
    """continue -> return, for the body of the innermost loop only."""

    def visit_For(self, n):
        return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)


def _has(body, kinds, into_loops):
    """Does the statement list contain a node of the kinds (not inside nested
    functions; inside nested loops only if into_loops)?"""
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if not into_loops and isinstance(n, (ast.For, ast.While)):
            stack.extend(n.orelse)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


MUTATORS = ('append', 'add', 'extend', 'insert', 'update', 'setdefault',
            'pop', 'popitem', 'remove', 'discard', 'clear', 'sort',
            'reverse')


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.func = []

    # ---- formatting never needs concrete values
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(
                _call('__vf_fmt__', node.left, node.right), node)
        return node

    # ---- stores into the heap
    def visit_Assign(self, node):
        self.generic_visit(node)
        if not self.func or self.func[-1] != 'def':
            return node
        if len(node.targets) != 1:
            return node
        t = node.targets[0]
        if isinstance(t, ast.Attribute):
            new = _call('__vf_setattr__', t.value, ast.Constant(value=t.attr),
                        node.value)
        elif isinstance(t, ast.Subscript) and not isinstance(
                t.slice, ast.Slice):
            new = _call('__vf_setitem__', t.value, t.slice, node.value)
        else:
            return node
        # the value is evaluated before the target, as in an assignment
        args = new.args
        names = []
        pre = []
        for i in [len(args) - 1] + list(range(len(args) - 1)):
            if isinstance(args[i], (ast.Constant, ast.Name)):
                continue
            self.n += 1
            nm = '__vf_a%d' % self.n
            pre.append(ast.Assign(targets=[_name(nm, ast.Store())],
                                  value=args[i]))
            args[i] = _name(nm)
            names.append(nm)
        # no other reference to a new container stays behind
        out = pre + [ast.Expr(new)] + [ast.Assign(
            targets=[_name(nm, ast.Store())],
            value=ast.Constant(value=None)) for nm in names]
        for x in out:
            ast.copy_location(x, node)
        return out

    # ---- mutation through a method
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'zip' and len(
                node.args) == 1 and isinstance(node.args[0], ast.Starred):
            return ast.copy_location(
                _call('__vf_unzip__', node.args[0].value), node)
        if not self.func or self.func[-1] != 'def' or not isinstance(
                f, ast.Attribute) or f.attr not in MUTATORS or \
                isinstance(f.value, ast.Name) and (
                    f.attr in ('append', 'add', 'extend')
                    or f.value.id in ('np', 'super')):
            return node
        return ast.copy_location(ast.Call(
            func=_name('__vf_mut__'), args=[
                f.value, ast.Constant(value=f.attr),
                ast.Constant(value=isinstance(f.value, ast.Name))]
            + node.args, keywords=node.keywords), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.func or self.func[-1] != 'def' or any(
                k is None for k in node.keys):
            return node
        return ast.copy_location(_call('__vf_dict__', *[
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)]), node)

    def visit_Delete(self, node):
        self.generic_visit(node)
        if not self.func or self.func[-1] != 'def':
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(
                    t.slice, ast.Slice):
                out.append(ast.Expr(_call('__vf_delitem__', t.value,
                                          t.slice)))
            else:
                out.append(ast.Delete(targets=[t]))
        for x in out:
            ast.copy_location(x, node)
        return out

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('__vf_setof__', ast.List(
            elts=node.elts, ctx=ast.Load())), node)

    # ---- comprehensions
    def _comp(self, node, kind, elt):
        if getattr(node, '_leaked', None) and not self.depth:
            return self._leaky(node)
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await))
               for x in ast.walk(node)):
            return node
        if len(node.generators) == 1:
            g = node.generators[0]
            self.n += 1
            arg = '__vf_e%d' % self.n
            inner = ast.ListComp(elt=elt, generators=[ast.comprehension(
                target=g.target, iter=ast.Tuple(
                    elts=[_name(arg)], ctx=ast.Load()),
                ifs=g.ifs, is_async=0)])
            self.n += 1
            itn = '__vf_i%d' % self.n
            node.generators[0] = ast.comprehension(
                target=g.target, iter=_name(itn), ifs=g.ifs, is_async=0)
            if kind in ('dict', 'set'):
                node = _call('__vf_%sof__' % kind, ast.ListComp(
                    elt=elt, generators=node.generators))
            # (lambda it: comp(it, body) if is_family(it) else <original>)(IT)
            lam = _lambda(itn, ast.IfExp(
                test=_call('__vf_is_family__', _name(itn)),
                body=_call('__vf_comp__', ast.Constant(value=kind),
                           _name(itn), _lambda(arg, inner)),
                orelse=node))
            return ast.copy_location(
                ast.Call(func=lam, args=[g.iter], keywords=[]), node)
        return node

    def _leaky(self, node):
        """A list comprehension whose variables are read after it."""
        import copy
        binds = [x for x in ast.walk(node) if isinstance(x, ast.NamedExpr)]
        g = node.generators[0]
        names = set('__leak_' + n for n in node._leaked)
        if len(node.generators) != 1 or any(
                not (isinstance(b.value, ast.Name) and b.value.id in names)
                for b in binds) or len(binds) != len(names):
            return node
        plain = copy.deepcopy(node)
        h = plain.generators[0]
        h.ifs = h.ifs[len(names):]
        for x in ast.walk(h.target):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = x.id[len('__leak_'):]
        self.n += 2
        arg, itn = '__vf_e%d' % self.n, '__vf_i%d' % self.n

        def over(elt, ifs):
            return _lambda(arg, ast.ListComp(
                elt=elt, generators=[ast.comprehension(
                    target=copy.deepcopy(h.target), iter=ast.Tuple(
                        elts=[_name(arg)], ctx=ast.Load()),
                    ifs=ifs, is_async=0)]))
        leaks = [ast.NamedExpr(
            target=ast.Name(id=n, ctx=ast.Store()),
            value=_call('__vf_leak__', _name(itn), over(_name(n), [])))
            for n in sorted(node._leaked)]
        it, g.iter = g.iter, _name(itn)
        return ast.copy_location(ast.IfExp(
            test=_call('__vf_is_family__', ast.NamedExpr(
                target=ast.Name(id=itn, ctx=ast.Store()), value=it)),
            body=ast.Subscript(value=ast.Tuple(elts=[_call(
                '__vf_comp__', ast.Constant(value='list'), _name(itn),
                over(plain.elt, h.ifs))] + leaks, ctx=ast.Load()),
                slice=ast.Constant(value=0), ctx=ast.Load()),
            orelse=node), node)

    depth = 0

    def generic_visit(self, node):
        inner = isinstance(node, (ast.ListComp, ast.GeneratorExp,
                                  ast.SetComp, ast.DictComp, ast.Lambda))
        self.depth += inner
        ast.NodeTransformer.generic_visit(self, node)
        self.depth -= inner
        return node

    def _nested(self, node, kind, elt):
        """[e for a in A for b in B] -> concat([[e for b in B] for a in A])"""
        if len(node.generators) < 2 or getattr(node, '_leaked', None) or any(
                isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await))
                for x in ast.walk(node)) or \
                self.func and self.func[-1] == 'class':
            return None
        inner = ast.ListComp(elt=elt, generators=node.generators[1:])
        outer = ast.ListComp(elt=inner, generators=node.generators[:1])
        for x in (inner, outer):
            ast.copy_location(x, node)
        return ast.copy_location(_call(
            '__vf_concat__', ast.Constant(value=kind), self.visit(outer)),
            node)

    def visit_ListComp(self, node):
        r = self._nested(node, 'list', node.elt)
        if r is not None:
            return r
        self.generic_visit(node)
        if self.func and self.func[-1] == 'class':
            return node
        return self._comp(node, 'list', node.elt)

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        if self.func and self.func[-1] == 'class':
            return node
        return self._comp(node, 'gen', node.elt)

    def visit_SetComp(self, node):
        r = self._nested(node, 'set', node.elt)
        if r is not None:
            return r
        self.generic_visit(node)
        return self._comp(node, 'set', node.elt)

    def visit_DictComp(self, node):
        r = self._nested(node, 'dict', ast.Tuple(
            elts=[node.key, node.value], ctx=ast.Load()))
        if r is not None:
            return r
        self.generic_visit(node)
        return self._comp(node, 'dict', ast.Tuple(
            elts=[node.key, node.value], ctx=ast.Load()))

    # ---- loops
    def visit_FunctionDef(self, node):
        self.func.append('def')
        saved = getattr(self, 'nonlocals', None)
        self.nonlocals = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.nonlocals |= set(n.names)
        self.generic_visit(node)
        self.func.pop()
        self.nonlocals = saved
        return node

    def visit_ClassDef(self, node):
        self.func.append('class')
        self.generic_visit(node)
        self.func.pop()
        return node

    def visit_While(self, node):
        """The head of the loop is where an invariant may be cut in."""
        names = []
        stack = list(node.body) + [node.test]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                              ast.DictComp, ast.Lambda, ast.FunctionDef,
                              ast.ClassDef)):
                continue
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                names.append(n.id)
            stack.extend(ast.iter_child_nodes(n))
        loaded = sorted(set(
            n.id for x in node.body + [node.test] for n in ast.walk(x)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)))
        self.generic_visit(node)
        if not self.func or self.func[-1] != 'def':
            return node
        self.n += 1
        w = '__vf_w%d' % self.n

        def thunk(x):
            return ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=_name(x))

        def getters(xs):
            return ast.Dict(keys=[ast.Constant(value=x) for x in xs],
                            values=[thunk(x) for x in xs])

        def method(m, *args):
            return ast.Call(func=ast.Attribute(
                value=_name(w), attr=m, ctx=ast.Load()), args=list(args),
                keywords=[])
        names.sort()
        node.test = ast.Subscript(value=ast.Tuple(elts=[
            method('head', getters(names), getters(loaded))] + [
                ast.NamedExpr(target=_name(x, ast.Store()), value=method(
                    'val', ast.Constant(value=x), thunk(x)))
                for x in names] + [method('decide', node.test)],
            ctx=ast.Load()),
            slice=ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=1)),
            ctx=ast.Load())
        out = [ast.Assign(targets=[_name(w, ast.Store())],
                          value=_call('__vf_while__')), node]
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.func or self.func[-1] != 'def':
            return node
        if _has(node.body, (ast.Return, ast.Yield, ast.YieldFrom, ast.Delete),
                True) or _has(node.body, (ast.Break,), False):
            return node
        if node.orelse:
            return node
        # writes through subscripts, and appends to anything but a plain
        # name, are outside the summarisation templates
        for n in ast.walk(ast.Module(body=node.body, type_ignores=[])):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and \
                    not isinstance(n.ctx, ast.Load):
                return node
        import copy
        self.n += 1
        k = self.n
        names = _stores(ast.Module(body=[node], type_ignores=[]))
        names = [x for x in names if not x.startswith('__vf_')
                 and x not in self.nonlocals]
        inner_binders = set()
        for n in ast.walk(ast.Module(body=node.body, type_ignores=[])):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                    not n.name.startswith('__vf_'):
                return node
        # names bound only by comprehensions do not leak in this dialect
        comp_only = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                              ast.DictComp)):
                for g in n.generators:
                    comp_only |= set(_stores(g.target))
        walrus = [n.target.id for n in ast.walk(node)
                  if isinstance(n, ast.NamedExpr)]
        plain = set(walrus)
        stack = [node]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                              ast.DictComp, ast.Lambda)):
                continue
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                plain.add(n.id)
            stack.extend(ast.iter_child_nodes(n))
        names = [x for x in names if x in plain]
        loaded = sorted(set(
            n.id for x in node.body for n in ast.walk(x)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
            and not n.id.startswith('__vf_')) - set(names))
        appended = []
        for n in ast.walk(ast.Module(body=node.body, type_ignores=[])):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ('append', 'add', 'extend') \
                    and isinstance(n.func.value, ast.Name):
                if n.func.value.id not in appended:
                    appended.append(n.func.value.id)
        # d['name'].append(x): the entry is treated as a local
        places = {}
        for n in ast.walk(ast.Module(body=node.body, type_ignores=[])):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id == '__vf_mut__' \
                    and n.args[1].value in ('append', 'add', 'extend') \
                    and isinstance(n.args[0], ast.Subscript) \
                    and isinstance(n.args[0].value, ast.Name) \
                    and isinstance(n.args[0].slice, ast.Constant) \
                    and n.args[0].value.id not in names:
                places[ast.unparse(n.args[0])] = n.args[0]
        body = [_Continue().visit(copy.deepcopy(s)) for s in node.body]
        elem = '__vf_e%d' % k
        fbody = []
        if names:
            fbody.append(ast.Nonlocal(names=list(names)))
        fbody.append(ast.Assign(targets=[copy.deepcopy(node.target)],
                                value=_name(elem)))
        fbody += body
        bdef = ast.FunctionDef(
            name='__vf_b%d' % k,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=elem)],
                               kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=fbody, decorator_list=[])
        getters = ast.Dict(
            keys=[ast.Constant(value=x) for x in names],
            values=[ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=_name(x)) for x in names])
        reads = [_name(x) for x in appended] + [
            copy.deepcopy(p) for p in places.values()]
        allget = ast.Dict(
            keys=[ast.Constant(value=x) for x in appended + list(places)],
            values=[ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=x) for x in reads])
        sbody = []
        setnames = list(names) + [x for x in appended if x not in names]
        if setnames:
            sbody.append(ast.Nonlocal(names=list(setnames)))
        for x in setnames:
            sbody.append(ast.If(
                test=ast.Compare(left=_name('__vf_n'), ops=[ast.Eq()],
                                 comparators=[ast.Constant(value=x)]),
                body=[ast.Assign(targets=[_name(x, ast.Store())],
                                 value=_name('__vf_v'))], orelse=[]))
        for x, p in places.items():
            sbody.append(ast.If(
                test=ast.Compare(left=_name('__vf_n'), ops=[ast.Eq()],
                                 comparators=[ast.Constant(value=x)]),
                body=[ast.Assign(targets=[ast.Subscript(
                    value=copy.deepcopy(p.value), slice=copy.deepcopy(
                        p.slice), ctx=ast.Store())],
                    value=_name('__vf_v'))], orelse=[]))
        if not sbody:
            sbody = [ast.Pass()]
        sdef = ast.FunctionDef(
            name='__vf_s%d' % k,
            args=ast.arguments(posonlyargs=[], args=[
                ast.arg(arg='__vf_n'), ast.arg(arg='__vf_v')],
                kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=sbody, decorator_list=[])
        # a name that is only appended to may be a parameter or a free
        # variable; Nonlocal needs it local to this function
        params_or_local = True
        it = '__vf_i%d' % k
        out = [
            ast.Assign(targets=[_name(it, ast.Store())], value=node.iter),
            ast.If(
                test=_call('__vf_is_family__', _name(it)),
                body=[bdef, sdef, ast.Expr(_call(
                    '__vf_for__', _name(it), _name('__vf_b%d' % k),
                    getters, allget, _name('__vf_s%d' % k), ast.Dict(
                        keys=[ast.Constant(value=x) for x in loaded],
                        values=[ast.Lambda(args=ast.arguments(
                            posonlyargs=[], args=[], kwonlyargs=[],
                            kw_defaults=[], defaults=[]), body=_name(x))
                            for x in loaded])))],
                orelse=[ast.For(target=node.target, iter=_name(it),
                                body=node.body, orelse=[])]),
        ]
        for s in out:
            ast.copy_location(s, node)
        return out


class _FixNonlocal(ast.NodeTransformer):
    """Drop nonlocal names that the enclosing function does not bind."""

    def visit_FunctionDef(self, node):
        bound = set(a.arg for a in node.args.args + node.args.kwonlyargs)
        if node.args.vararg:
            bound.add(node.args.vararg.arg)
        if node.args.kwarg:
            bound.add(node.args.kwarg.arg)
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    bound.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound.add(n.id)
            if isinstance(n, ast.alias):
                bound.add((n.asname or n.name).split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                bound.add(n.name)
            stack.extend(ast.iter_child_nodes(n))
        outer = getattr(self, 'outer', [])
        self.outer = outer + [bound]
        self.generic_visit(node)
        self.outer = outer
        allb = set()
        for b in self.outer:
            allb |= b
        # nonlocal statements of this function refer to enclosing functions
        for s in list(node.body):
            if isinstance(s, ast.Nonlocal):
                keep = [x for x in s.names if x in allb]
                if keep:
                    s.names = keep
                else:
                    node.body.remove(s)
                if node.name.startswith('__vf_s'):
                    node.body = [
                        t for t in node.body
                        if not (isinstance(t, ast.If) and
                                '[' not in t.test.comparators[0].value and
                                t.test.comparators[0].value not in keep)]
        if not node.body:
            node.body = [ast.Pass()]
        return node


def instrument(tree):
    tree = Instrument().visit(tree)
    tree = _FixNonlocal().visit(tree)
    ast.fix_missing_locations(tree)
    return tree
