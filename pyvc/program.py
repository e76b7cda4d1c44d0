"""Loading of the program under verification: the AST of /repo's current source, nothing else."""
import ast
import warnings
import builtins
import os
from core import *


class Frame(HeapObj):
    def __init__(self, func, glob, parents=()):
        HeapObj.__init__(self)
        self.func = func
        self.glob = glob
        self.locals = {}
        self.parents = tuple(parents)
        self.yields = None
        self.cls = None
        self.cur_exc = None


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.globals = {}
        self.loaded = False

    def __repr__(self):
        return '<module %s>' % self.name


class PFunc(object):
    def __init__(self, node, module, name, parents=(), cls=None, defaults=(), kwdefaults=None):
        self.node, self.module, self.name, self.parents, self.cls = node, module, name, tuple(parents), cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.isgen = not isinstance(node, ast.Lambda) and has_yield(node)

    @property
    def qualname(self):
        return (self.module.name.replace('multibag.', '', 1) + '.' + ((self.cls.name + '.') if self.cls else '') + self.name)

    def __repr__(self):
        return '<func %s>' % self.qualname


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class PClass(object):
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, PClass) else [b] for b in self.bases] + [list(self.bases)]
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO of ' + self.name)
            out.append(c)
            seqs = [[x for x in s if x is not c and x != c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name, after=None):
        """(owner, value) or None"""
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, PClass) and name in c.ns:
                return c, c.ns[name]
            if isinstance(c, Ext) and (c.dotted + '.' + name) in EXT_METHODS:
                return c, Ext(c.dotted + '.' + name)
        return None

    def __repr__(self):
        return '<class %s>' % self.name


EXT_METHODS = set()


class Ext(object):
    """something outside /repo, by its dotted name"""
    def __init__(self, dotted):
        self.dotted = dotted

    def __eq__(self, o):
        return isinstance(o, Ext) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)

    def __repr__(self):
        return '<ext %s>' % self.dotted


class Builtin(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<builtin %s>' % self.name


class BoundM(object):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class BM(object):
    """method of a built-in value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class SuperProxy(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Regex(object):
    def __init__(self, pattern, flags=0):
        self.pattern = pattern


class Native(object):
    """a function supplied by a contract: fn(eng, args, kwargs)"""
    def __init__(self, fn, name='native'):
        self.fn, self.name = fn, name


class Program(object):
    def __init__(self, root):
        self.root = root
        self.modules = {}

    def find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        return None

    def module(self, eng, name):
        if name in self.modules:
            return self.modules[name]
        f = self.find(name)
        if not f:
            return None
        warnings.simplefilter('ignore')
        tree = ast.parse(open(f[0], encoding='utf-8').read(), f[0])
        m = Module(name, f[0], tree)
        m.ispkg = f[1]
        self.modules[name] = m
        m.globals['__name__'] = name
        eng.exec_module(m)
        m.loaded = True
        return m
