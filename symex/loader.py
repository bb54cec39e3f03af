"""Loads the real source of /repo into private module objects, optionally with
stand-ins for the modules it imports and for a few builtins."""
import ast
import builtins
import importlib
import os
import types

from . import engine as E

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'task_models'

_CODE = {}


def _int(node):
    return isinstance(node, ast.Constant) and type(node.value) is int


class Choices(ast.NodeTransformer):
    """`m if c else n` over integer constants becomes one value (an if-then-else
    term for an unknown c) instead of two paths."""

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if not (_int(node.body) and _int(node.orelse)):
            return node
        call = ast.Call(ast.Name(CHOICE, ast.Load()), [node.test, node.body, node.orelse], [])
        return ast.copy_location(call, node)


CHOICE = '__choice__'


def choice(c, m, n):
    if type(c) in (E.SymBool, E.SymInt):
        eng = E.engine()
        if eng is not None and not eng.law_active():
            if type(c) is E.SymInt:
                c = c != 0
            if type(c) is E.SymBool:
                return E.SymInt(E.z3.If(c.e, E.z3.IntVal(m), E.z3.IntVal(n)))
    return m if c else n


def compile_source(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(key)
    if c is None:
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.fix_missing_locations(Choices().visit(ast.parse(src, path)))
        c = compile(tree, path, 'exec', dont_inherit=True)
        _CODE[key] = c
    return c


class Loader(object):

    def __init__(self, stubs=None, builtin_overrides=None):
        self.modules = {}
        self.stubs = dict(stubs or {})
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(builtin_overrides or {})
        self.builtins['__import__'] = self._import
        self.builtins[CHOICE] = choice

    def find(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, is_pkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition('.')[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        if os.path.exists(path):
            try:
                exec(compile_source(path), m.__dict__)
            except BaseException:
                del self.modules[name]
                raise
        if '.' in name:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _resolve(self, name, globs, level):
        if level == 0:
            return name
        pkg = globs['__package__']
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        return pkg + ('.' + name if name else '')

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        full = self._resolve(name, globals, level)
        if full in self.stubs:
            if fromlist or '.' not in full:
                return self.stubs[full]
            return self.stubs.get(full.split('.')[0], self.stubs[full])
        if full.split('.')[0] == PKG:
            m = self.load(full)
            if not fromlist:
                return self.load(full.split('.')[0])
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        self.load(full + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        top = full.split('.')[0]
        if top in self.stubs:
            s = self.stubs[top]
            importlib.import_module(full)
            if fromlist:
                for part in full.split('.')[1:]:
                    s = getattr(s, part)
            return s
        return builtins.__import__(name, globals, locals, fromlist, level)


class ModuleProxy(types.ModuleType):
    """A real module with some attributes replaced."""

    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)
        if hasattr(real, '__path__'):
            self.__dict__['__path__'] = real.__path__

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)
