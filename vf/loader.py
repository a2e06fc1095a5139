"""Import hook: makes `import cgpm...` load the translated /repo/src."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import py2
from . import translate as tr

ROOT = os.environ.get('VF_REPO', '/repo')


class Loader(importlib.abc.Loader):
    def __init__(self, path, owner):
        self.path, self.owner = path, owner

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            source = f.read()
        tree, text = tr.translate(source, self.path, self.owner.symbolic)
        self.owner.sources[module.__name__] = (self.path, source, text)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__.update(py2.HELPERS)
        if self.owner.pre:
            self.owner.pre(module)
        exec(code, module.__dict__)
        if self.owner.post:
            self.owner.post(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, prefix='cgpm', sub='src', symbolic=None,
                 pre=None, post=None):
        self.root, self.prefix, self.sub = root, prefix, sub
        self.symbolic, self.pre, self.post = symbolic, pre, post
        self.sources = {}

    def find_spec(self, name, path=None, target=None):
        if name != self.prefix and not name.startswith(self.prefix + '.'):
            return None
        parts = name.split('.')[1:]
        base = os.path.join(self.root, self.sub, *parts)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(
                    name, f, loader=Loader(f, self),
                    submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(
                name, f, loader=Loader(f, self))
        # generated, ignored by git
        if name == self.prefix + '.version':
            class V(importlib.abc.Loader):
                def create_module(s, spec):
                    return None

                def exec_module(s, m):
                    m.__version__ = '0.0.0'
            return importlib.machinery.ModuleSpec(name, V())
        return None


def install(root=None, **kw):
    for m in [m for m in sys.modules if m == 'cgpm' or m.startswith('cgpm.')]:
        del sys.modules[m]
    py2.library_compat()
    f = Finder(root or ROOT, **kw)
    sys.meta_path.insert(0, f)
    return f
