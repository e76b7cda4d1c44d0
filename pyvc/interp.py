"""pyvc interpreter: symbolic execution of the Python AST of /repo."""
import ast
import builtins
import re
from core import *
from engine import Engine, Path, shape_key
from program import *
import program
import strs

EXCS = dict((n, v) for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException))
TYPES = 'int str bool float list tuple dict set frozenset object type bytes unicode'.split()
FUNCS = ('len isinstance issubclass sorted reversed range enumerate zip any all sum min max super getattr hasattr setattr next iter open '
         'print repr abs map filter callable id property staticmethod classmethod vars round divmod hash chr ord').split()


from ops import Ops
from loops import Loops


class Interp(Ops, Loops, Engine):
    exc_names = set(EXCS)

    # ------------------------------------------------------------ modules
    def exec_module(self, m):
        fr = Frame(None, m)
        fr.locals = m.globals
        old = self.path
        if old is None:
            self.path = Path(self, [], [])
        self.stack.append(fr)
        try:
            self.lenient(fr, m.tree.body)
        finally:
            self.stack.pop()
            self.path = old

    def lenient(self, fr, stmts):
        """definitions outside the subset do not hide the rest of a module: what they define cannot be used"""
        for s in stmts:
            try:
                self.stmt(fr, s)
            except Unsupported as ex:
                for n in bound_names(s):
                    fr.locals[n] = Poison(n)

    def resolve_import(self, frame, modname, level):
        if level:
            pkg = frame.glob.name.split('.')
            if not frame.glob.ispkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(pkg + ([modname] if modname else []))
        else:
            name = modname
        return name

    def import_module(self, name):
        if name.split('.')[0] == 'multibag':
            m = self.program.module(self, name)
            if m is not None:
                return m
            raise Unsupported('cannot find module ' + name)
        return Ext(name)

    # ------------------------------------------------------------ exceptions
    def pyexc(self, name, *args):
        return PyRaise(self.newobj(Obj(Builtin(name), {'args': tuple(args)})))

    def class_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if v is None:
            return Builtin('NoneType')
        if isinstance(v, (bool, SBool)):
            return Builtin('bool')
        if isinstance(v, (int, SInt)):
            return Builtin('int')
        if isinstance(v, (float, SReal)):
            return Builtin('float')
        if is_str(v):
            return Builtin('str')
        if isinstance(v, tuple):
            return Builtin('tuple')
        if isinstance(v, PList):
            return Builtin(v.kind)
        if isinstance(v, (PDict, SMap)):
            return Builtin('dict')
        if isinstance(v, PSet):
            return Builtin('set')
        if isinstance(v, (PClass,)):
            return Builtin('type')
        return Builtin('object')

    def is_sub(self, c, t):
        """c a subclass of t"""
        if isinstance(t, tuple):
            return any(self.is_sub(c, x) for x in t)
        if isinstance(t, PList):
            raise Unsupported('isinstance with a list')
        if t == Builtin('object') or c is t or c == t:
            return True
        if isinstance(c, PClass):
            for b in c.mro:
                if b is t or b == t:
                    return True
                if isinstance(b, Builtin) and isinstance(t, Builtin) and b.name in EXCS and t.name in EXCS and \
                        issubclass(EXCS[b.name], EXCS[t.name]):
                    return True
                if isinstance(b, Ext) and self.ext_sub(b, t):
                    return True
            return False
        if isinstance(c, Ext):
            return self.ext_sub(c, t)
        if isinstance(c, Builtin) and isinstance(t, Builtin):
            if c.name in EXCS and t.name in EXCS:
                return issubclass(EXCS[c.name], EXCS[t.name])
            if c.name == 'bool' and t.name == 'int':
                return True
            if t.name == 'unicode':
                return c.name == 'str'
            return False
        if isinstance(t, Ext):
            if t.dotted in ('collections.abc.Sequence', 'collections.Sequence'):
                return isinstance(c, Builtin) and c.name in ('list', 'tuple', 'str', 'range')
            if t.dotted in ('collections.abc.Mapping', 'collections.Mapping', 'collections.OrderedDict'):
                return isinstance(c, Builtin) and c.name == 'dict'
            return False
        return False

    EXT_BASES = {'bagit.BagError': ['Exception'], 'bagit.BagValidationError': ['bagit.BagError'],
                 'fs.errors.ResourceNotFound': ['fs.errors.FSError'], 'fs.errors.FSError': ['Exception'],
                 'fs.errors.IllegalBackReference': ['ValueError'],
                 'bagit.UnicodeDecodeError': ['UnicodeDecodeError']}

    def ext_sub(self, c, t):
        if c == t:
            return True
        for b in self.EXT_BASES.get(c.dotted, []):
            b = Builtin(b) if b in EXCS else Ext(b)
            if self.is_sub(b, t):
                return True
        return False

    # ------------------------------------------------------------ variables
    def getvar(self, fr, name):
        if name in fr.locals:
            v = fr.locals[name]
            if isinstance(v, Poison):
                raise Unsupported('%s is read after a loop that may not have set it' % name)
            return v
        for p in fr.parents:
            if name in p.locals:
                if isinstance(p.locals[name], Poison):
                    raise Unsupported('%s is read after a loop that may not have set it' % name)
                return p.locals[name]
        if name in fr.glob.globals:
            if isinstance(fr.glob.globals[name], Poison):
                raise Unsupported('definition of %s' % name)
            return fr.glob.globals[name]
        if name in EXCS or name in TYPES or name in FUNCS:
            return Builtin(name)
        if name == 'NotImplemented':
            return Builtin(name)
        if name == '__file__':
            return fr.glob.path
        if fr.func is not None and name in local_names(fr.func.node):
            raise self.pyexc('UnboundLocalError', name)
        raise self.pyexc('NameError', name)

    def setvar(self, fr, name, v):
        tgt = fr
        if fr.func is not None and name in declared(fr.func.node, ast.Nonlocal):
            for p in fr.parents:
                if name in p.locals:
                    tgt = p
                    break
        elif fr.func is not None and name in declared(fr.func.node, ast.Global):
            raise Unsupported('assignment to a global')
        self.wr(tgt, name)
        tgt.locals[name] = v

    # ------------------------------------------------------------ statements
    def block(self, fr, stmts):
        for s in stmts:
            self.stmt(fr, s)

    def stmt(self, fr, s):
        if time_up(self):
            raise Unsupported('time limit of the verifier reached')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%s' % (type(s).__name__, fr.glob.name, s.lineno))
        m(fr, s)

    def s_Expr(self, fr, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(fr, s.value)

    def s_Pass(self, fr, s):
        pass

    def s_Assert(self, fr, s):
        if not self.decide(self.truth(self.ev(fr, s.test))):
            raise self.pyexc('AssertionError')

    def s_Return(self, fr, s):
        raise RetSig(self.ev(fr, s.value) if s.value is not None else None)

    def s_Break(self, fr, s):
        raise BrkSig()

    def s_Continue(self, fr, s):
        raise ContSig()

    def s_Global(self, fr, s):
        pass

    def s_Nonlocal(self, fr, s):
        pass

    def s_Delete(self, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.wr(fr, t.id)
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(fr, t.value)
                self.delitem(o, self.index(fr, t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.ev(fr, t.value)
                if not isinstance(o, Obj) or t.attr not in o.attrs:
                    raise Unsupported('del attribute')
                self.mutated(o)
                self.wr(o, t.attr)
                del o.attrs[t.attr]
            else:
                raise Unsupported('del')

    def s_Assign(self, fr, s):
        v = self.ev(fr, s.value)
        for t in s.targets:
            self.assign(fr, t, v)

    def s_AnnAssign(self, fr, s):
        if s.value is not None:
            self.assign(fr, s.target, self.ev(fr, s.value))

    def s_AugAssign(self, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getvar(fr, t.id)
            v = self.ev(fr, s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, PList) and cur.kind == 'list':
                self.list_extend(cur, v)
                self.setvar(fr, t.id, cur)
                return
            self.setvar(fr, t.id, self.binop(s.op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(fr, s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, PList) and cur.kind == 'list':
                self.list_extend(cur, v)
                return
            self.setattr(o, t.attr, self.binop(s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            i = self.index(fr, t.slice)
            cur = self.getitem(o, i)
            v = self.ev(fr, s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, PList) and cur.kind == 'list':
                self.list_extend(cur, v)
                return
            self.setitem(o, i, self.binop(s.op, cur, v))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(fr, e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(fr, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(fr, t.value), self.index(fr, t.slice), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise self.pyexc('ValueError', 'unpack')
            return v
        lst = self.to_list(v)
        c = lst.concrete()
        if c is None:
            if not self.decide(wrap_bool(int_term(self.length(lst)) == n)):
                raise self.pyexc('ValueError', 'unpack')
            return [self.list_get(lst, i) for i in range(n)]
        if len(c) != n:
            raise self.pyexc('ValueError', 'unpack')
        return c

    def s_If(self, fr, s):
        c = self.truth(self.ev(fr, s.test))
        if getattr(self, 'merge', False) and isinstance(c, SBool) and not s.orelse and id(s) not in self.nomerge:
            if self.no_effect(fr, s, c):
                return
            self.nomerge.add(id(s))
        if self.decide(c):
            self.block(fr, s.body)
        else:
            self.block(fr, s.orelse)

    def no_effect(self, fr, s, c):
        """does the branch end normally and change nothing: then it makes no difference whether it is taken"""
        S0 = self.snapshot()
        pc0 = list(self.path.pc)
        ok = [True]

        def run():
            self.restore(S0)
            if not ok[0]:
                return
            self.assume(c)
            log = set()
            self.wlogs.append(log)
            try:
                self.block(fr, s.body)
            except (PyRaise, RetSig, BrkSig, ContSig):
                ok[0] = False
            finally:
                self.wlogs.pop()
            if any(u in S0[0] for u, _ in log):
                ok[0] = False
        try:
            self.explore(run, pc0)
        finally:
            self.restore(S0)
        return ok[0]

    def s_Raise(self, fr, s):
        if s.exc is None:
            if fr.cur_exc is None:
                raise Unsupported('bare raise')
            raise PyRaise(fr.cur_exc)
        v = self.ev(fr, s.exc)
        if isinstance(v, (PClass, Builtin, Ext)):
            v = self.call(v, [], {})
        if not isinstance(v, Obj):
            raise Unsupported('raise of %r' % (v,))
        raise PyRaise(v)

    def s_Try(self, fr, s):
        def main():
            try:
                self.block(fr, s.body)
            except PyRaise as ex:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(fr, h.type)
                        ok = self.is_sub(ex.val.cls, t)
                    if ok:
                        if h.name:
                            self.setvar(fr, h.name, ex.val)
                        old = fr.cur_exc
                        fr.cur_exc = ex.val
                        try:
                            self.block(fr, h.body)
                        finally:
                            fr.cur_exc = old
                        return
                raise
            else:
                self.block(fr, s.orelse)
        if not s.finalbody:
            return main()
        try:
            main()
        except (PyRaise, RetSig, BrkSig, ContSig):
            self.block(fr, s.finalbody)
            raise
        self.block(fr, s.finalbody)

    def s_With(self, fr, s):
        exits = []
        for it in s.items:
            cm = self.ev(fr, it.context_expr)
            v = self.call(self.getattr(cm, '__enter__'), [], {})
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(fr, it.optional_vars, v)

        def leave(exc):
            for cm in reversed(exits):
                self.call(self.getattr(cm, '__exit__'), [None, None, None] if exc is None else [exc.cls, exc, None], {})
        try:
            self.block(fr, s.body)
        except PyRaise as ex:
            leave(ex.val)
            raise
        except (RetSig, BrkSig, ContSig):
            leave(None)
            raise
        leave(None)

    def s_Import(self, fr, s):
        for a in s.names:
            if a.asname:
                v = self.import_module(a.name)
                self.setvar(fr, a.asname, v)
            else:
                v = self.import_module(a.name)
                top = a.name.split('.')[0]
                self.setvar(fr, top, self.import_module(top) if top != a.name else v)

    def s_ImportFrom(self, fr, s):
        if s.module == '__future__':
            return
        name = self.resolve_import(fr, s.module, s.level)
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Module):
                    for k, v in m.globals.items():
                        if not k.startswith('_'):
                            self.setvar(fr, k, v)
                else:
                    for k in STAR.get(name, ()):
                        self.setvar(fr, k, Ext(k) if k in STDMODS else Ext(name + '.' + k))
                continue
            if isinstance(m, Module):
                if a.name in m.globals:
                    v = m.globals[a.name]
                else:
                    v = self.import_module(name + '.' + a.name)
            else:
                v = Ext(name + '.' + a.name)
            self.setvar(fr, a.asname or a.name, v)

    def s_FunctionDef(self, fr, s):
        f = self.mkfunc(fr, s, s.name)
        for d in reversed(s.decorator_list):
            dn = ast.unparse(d)
            if dn == 'property':
                f = Prop(f)
            elif dn == 'staticmethod':
                f = StaticM(f)
            elif dn == 'classmethod':
                f = ClassM(f)
            elif dn.endswith('.setter'):
                old = fr.locals.get(dn.split('.')[0])
                f = Prop(old.fget if isinstance(old, Prop) else None, f)
            elif dn in ('abstractmethod',):
                pass
            else:
                raise Unsupported('decorator ' + dn)
        self.setvar(fr, s.name, f)

    def mkfunc(self, fr, node, name):
        a = node.args
        defaults = [self.ev(fr, d) for d in a.defaults]
        kwd = dict((k.arg, self.ev(fr, d)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        parents = ()
        if fr.func is not None:
            parents = (fr,) + fr.parents
        return PFunc(node, fr.glob, name, parents, None, defaults, kwd)

    def s_ClassDef(self, fr, s):
        bases = [self.ev(fr, b) for b in s.bases] or [Builtin('object')]
        cf = Frame(fr.func, fr.glob, fr.parents)
        ns = {}
        cf.locals = ns
        cfr = ClassFrame(fr.glob, ns, fr)
        self.lenient(cfr, s.body)
        c = PClass(s.name, bases, ns, fr.glob)
        for v in ns.values():
            for f in ([v] if isinstance(v, PFunc) else [v.fget, v.fset] if isinstance(v, Prop) else
                      [v.f] if isinstance(v, (StaticM, ClassM)) else []):
                if isinstance(f, PFunc) and f.cls is None:
                    f.cls = c
        self.setvar(fr, s.name, c)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        args = list(args)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.obj] + args, kw, node)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw, node)
        if isinstance(f, PFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, PClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, BM):
            return self.call_bm(f.obj, f.name, args, kw)
        if isinstance(f, Builtin):
            return self.call_builtin(f.name, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.dotted, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Obj):
            c = f.cls.lookup('__call__') if isinstance(f.cls, PClass) else None
            if c:
                return self.call_func(c[1], [f] + args, kw)
        if f is None:
            raise self.pyexc('TypeError', 'NoneType is not callable')
        raise Unsupported('call of %r' % (f,))

    def call_ext(self, dotted, args, kw):
        m = self.models.get(dotted)
        if m is None:
            if dotted in self.EXT_BASES:
                return self.newobj(Obj(Ext(dotted), {'args': tuple(args)}))
            raise Unsupported('external function ' + dotted)
        self.used_models.add(dotted)
        return m(self, args, kw)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kw = dict(kw)
        for n in names:
            if args:
                if isinstance(args[0], StarSeg):
                    raise Unsupported('*args of unknown number for named parameters')
                loc[n] = args.pop(0)
                if n in kw:
                    raise self.pyexc('TypeError', 'multiple values')
            elif n in kw:
                loc[n] = kw.pop(n)
        if a.vararg:
            loc[a.vararg.arg] = tuple(args) if not any(isinstance(x, StarSeg) for x in args) else self.star_tuple(args)
        elif args:
            raise self.pyexc('TypeError', '%s() takes fewer arguments' % f.name)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                k = i - (len(names) - nd)
                if k < 0:
                    raise self.pyexc('TypeError', '%s() missing argument %s' % (f.name, n))
                loc[n] = f.defaults[k]
        for x in a.kwonlyargs:
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                loc[x.arg] = f.kwdefaults[x.arg]
            else:
                raise self.pyexc('TypeError', 'missing keyword argument')
        if a.kwarg:
            loc[a.kwarg.arg] = self.newobj(PDict(kw))
        elif kw:
            raise self.pyexc('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, list(kw)[0]))
        return loc

    def star_tuple(self, args):
        segs = []
        for x in args:
            if isinstance(x, StarSeg):
                segs.append(x.seg)
            else:
                segs.append(El(x))
        p = self.newobj(PList(segs))
        p.kind = 'tuple'
        return p

    def call_func(self, f, args, kw):
        q = f.qualname
        if q in self.summaries and not (self.target == q and len(self.stack) == self.target_depth):
            self.used_summaries.add(q)
            return self.summaries[q](self, f, args, kw)
        if len(self.stack) > 60:
            raise Unsupported('recursion')
        if isinstance(f.node, ast.Lambda):
            fr = self.newobj(Frame(f, f.module, f.parents))
            fr.locals = self.bind(f, args, kw)
            self.stack.append(fr)
            try:
                return self.ev(fr, f.node.body)
            finally:
                self.stack.pop()
        self.functions[q] = self.functions.get(q, 0) + 1
        fr = self.newobj(Frame(f, f.module, f.parents))
        fr.cls = f.cls
        fr.locals = self.bind(f, args, kw)
        depth = len(self.stack)
        if f.isgen:
            fr.yields = self.newobj(PList())
        self.stack.append(fr)
        try:
            try:
                self.block(fr, f.node.body)
                ret = None
            except RetSig as r:
                ret = r.v
            except (BrkSig, ContSig):
                raise Unsupported('break outside a loop')
        finally:
            del self.stack[depth:]
        if f.isgen:
            return self.newobj(Iter(fr.yields))
        return ret

    def instantiate(self, c, args, kw):
        if c.name in self.summaries:
            return self.summaries[c.name](self, c, args, kw)
        o = self.newobj(Obj(c))
        init = c.lookup('__init__')
        exc = any(isinstance(b, Builtin) and b.name in EXCS for b in c.mro) or \
            any(isinstance(b, Ext) and self.ext_sub(b, Builtin('Exception')) for b in c.mro)
        if exc:
            o.attrs['args'] = tuple(args)
        if init:
            if isinstance(init[1], PFunc):
                self.call_func(init[1], [o] + list(args), kw)
            else:
                self.call(init[1], [o] + list(args), kw)
        elif args or kw:
            if not exc:
                raise self.pyexc('TypeError', '%s() takes no arguments' % c.name)
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if isinstance(o.cls, PClass):
                r = o.cls.lookup(name)
                if r and isinstance(r[1], Prop):
                    return self.call_func(r[1].fget, [o], {})
                if name in o.attrs:
                    return o.attrs[name]
                if r:
                    v = r[1]
                    if isinstance(v, PFunc):
                        return BoundM(o, v)
                    if isinstance(v, ClassM):
                        return BoundM(o.cls, v.f)
                    if isinstance(v, StaticM):
                        return v.f
                    if isinstance(v, (Ext, Native)):
                        return BoundM(o, v)
                    return v
                if name == '__class__':
                    return o.cls
                g = o.cls.lookup('__getattr__')
                if g:
                    return self.call_func(g[1], [o, name], {})
            else:
                if name in o.attrs:
                    return o.attrs[name]
                if name == '__class__':
                    return o.cls
                if isinstance(o.cls, Ext) and ('get:' + o.cls.dotted + '.' + name) in self.models:
                    return self.models['get:' + o.cls.dotted + '.' + name](self, [o], {})
                if isinstance(o.cls, Ext) and (o.cls.dotted + '.' + name) in self.models:
                    return BoundM(o, Ext(o.cls.dotted + '.' + name))
            if name in o.attrs:
                return o.attrs[name]
            ok = getattr(o, 'lazy', None)
            if ok is not None:
                v = ok(self, o, name)
                if v is not None:
                    return v
            if getattr(o, 'partial', False) or isinstance(o.cls, Ext) and o.cls.dotted.endswith('*'):
                # an object of a contract: it need not have all the attributes of the real one
                raise Unsupported('the attribute %s' % name)
            raise self.pyexc('AttributeError', name)
        if isinstance(o, PClass):
            r = o.lookup(name)
            if r is None:
                if name == '__name__':
                    return o.name
                raise self.pyexc('AttributeError', name)
            v = r[1]
            if isinstance(v, ClassM):
                return BoundM(o, v.f)
            if isinstance(v, StaticM):
                return v.f
            return v
        if isinstance(o, SuperProxy):
            cls = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            r = cls.lookup(name, after=o.cls)
            if r is None:
                if name == '__init__':
                    return Native(lambda e, a, k: None, 'object.__init__')
                raise self.pyexc('AttributeError', 'super: ' + name)
            v = r[1]
            if isinstance(v, Prop):
                return self.call_func(v.fget, [o.obj], {})
            if isinstance(v, ClassM):
                return BoundM(cls, v.f)
            if isinstance(v, StaticM):
                return v.f
            return BoundM(o.obj, v)
        if isinstance(o, Module):
            if name in o.globals:
                return o.globals[name]
            return self.import_module(o.name + '.' + name)
        if isinstance(o, Ext):
            k = o.dotted + '.' + name
            if k in CONSTS:
                return CONSTS[k]
            return Ext(k)
        if isinstance(o, Prop) and name in ('setter', 'getter'):
            raise Unsupported('property.' + name)
        if o is None:
            if name in ('__class__',):
                return Builtin('NoneType')
            raise self.pyexc('AttributeError', 'None.' + name)
        if isinstance(o, (str, SStr, PList, PDict, SMap, PSet, tuple, Iter, int, SInt, Builtin, Regex)):
            if isinstance(o, Regex) and name == 'pattern':
                return o.pattern
            return BM(o, name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, PClass):
                r = o.cls.lookup(name)
                if r and isinstance(r[1], Prop):
                    if r[1].fset is None:
                        raise self.pyexc('AttributeError', "can't set " + name)
                    self.call_func(r[1].fset, [o, v], {})
                    return
            self.mutated(o)
            if name == '__class__':
                self.wr(o, '__class__')
                o.cls = v
                return
            self.wr(o, name)
            o.attrs[name] = v
            return
        if isinstance(o, Ext) or isinstance(o, Module):
            self.used_models.add('(assignment to %r.%s ignored)' % (o, name))
            return
        raise Unsupported('attribute assignment to %r' % (o,))

    # ------------------------------------------------------------ expressions
    def ev(self, fr, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s:%s' % (type(e).__name__, fr.glob.name, e.lineno))
        return m(fr, e)

    def e_Constant(self, fr, e):
        return e.value

    def e_Name(self, fr, e):
        return self.getvar(fr, e.id)

    def e_Tuple(self, fr, e):
        out = self.elts(fr, e.elts)
        if any(isinstance(x, StarSeg) for x in out):
            return self.star_tuple(out)
        return tuple(out)

    def e_List(self, fr, e):
        return self.newobj(PList([x.seg if isinstance(x, StarSeg) else El(x) for x in self.elts(fr, e.elts)]))

    def elts(self, fr, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(fr, x.value)
                for s in self.to_list(v).segs:
                    out.append(StarSeg(self.share(s)) if isinstance(s, SymSeg) else s.v)
            else:
                out.append(self.ev(fr, x))
        return out

    def e_Set(self, fr, e):
        return self.to_set(self.newobj(mklist([self.ev(fr, x) for x in e.elts])))

    def e_Dict(self, fr, e):
        d = self.newobj(PDict())
        d.origin = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(fr, v)
                if not isinstance(o, PDict):
                    raise Unsupported('** of %r' % (o,))
                d.d.update(o.d)
                continue
            kk = self.ev(fr, k)
            vv = self.ev(fr, v)
            if not isinstance(kk, (str, int, tuple, float)):
                raise Unsupported('symbolic dict key')
            d.d[kk] = vv
        return d

    def e_Attribute(self, fr, e):
        return self.getattr(self.ev(fr, e.value), e.attr)

    def e_Subscript(self, fr, e):
        o = self.ev(fr, e.value)
        return self.getitem(o, self.index(fr, e.slice))

    def index(self, fr, s):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(fr, x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(fr, s)

    def e_IfExp(self, fr, e):
        return self.ev(fr, e.body if self.decide(self.truth(self.ev(fr, e.test))) else e.orelse)

    def e_BoolOp(self, fr, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(fr, x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if self.decide(t) != isand:
                return (not isand) if isinstance(v, (SBool, bool)) else v
        return v

    def e_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else wrap_bool(z3.Not(t.t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return self.binop(ast.Sub(), 0, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, int):
            return ~v
        raise Unsupported('unary operator')

    def e_BinOp(self, fr, e):
        return self.binop(e.op, self.ev(fr, e.left), self.ev(fr, e.right))

    def e_Compare(self, fr, e):
        left = self.ev(fr, e.left)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(fr, c)
            r = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                if res is None:
                    return r
            if len(e.ops) > 1:
                if not self.decide(self.truth(r)):
                    return False
                res = True
            left = right
        return True

    def e_Lambda(self, fr, e):
        return self.mkfunc(fr, e, '<lambda>')

    def e_JoinedStr(self, fr, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                if v.format_spec is not None or v.conversion != -1:
                    raise Unsupported('f-string format')
                out.extend(str_parts(strs.fmt_value(self, self.ev(fr, v.value))))
        return mkstr(out)

    def e_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v)
        return v

    def e_Yield(self, fr, e):
        f = fr
        v = self.ev(fr, e.value) if e.value is not None else None
        if f.yields is None:
            raise Unsupported('yield')
        h = getattr(self, 'yield_hook', None)
        if h is not None and fr.func is not None and fr.func.qualname == self.target:
            h(v)
        self.list_append(f.yields, v)
        return None

    def e_YieldFrom(self, fr, e):
        self.list_extend(fr.yields, self.ev(fr, e.value))
        return None

    def e_Call(self, fr, e):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            if fr.cls is None:
                raise Unsupported('super() outside a method')
            first = fr.func.node.args.args[0].arg
            return SuperProxy(fr.cls, fr.locals[first])
        f = self.ev(fr, e.func)
        args = self.elts(fr, e.args)
        kw = {}
        for k in e.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None:
                if not isinstance(v, PDict):
                    raise Unsupported('** of %r' % (v,))
                kw.update(v.d)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def e_ListComp(self, fr, e):
        return self.comprehension(fr, e.elt, e.generators)

    def e_GeneratorExp(self, fr, e):
        return self.newobj(Iter(self.comprehension(fr, e.elt, e.generators)))

    def e_SetComp(self, fr, e):
        return self.to_set(self.comprehension(fr, e.elt, e.generators))

    def e_DictComp(self, fr, e):
        lst = self.comprehension(fr, ast.Tuple([e.key, e.value], ast.Load()), e.generators)
        return self.call_builtin('dict', [lst], {})


class StarSeg(object):
    """a symbolic run passed through *args"""
    def __init__(self, seg):
        self.seg = seg


class ClassFrame(Frame):
    def __init__(self, glob, ns, outer):
        Frame.__init__(self, None, glob)
        self.locals = ns
        self.parents = (outer,) + outer.parents if outer.func is not None else ()


def time_up(eng):
    import time
    return time.time() > eng.deadline


_ln = {}


def bound_names(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out += [a.asname or a.name.split('.')[0] for a in n.names]
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        out = [s.name]
    return out


def local_names(node):
    if id(node) not in _ln:
        s = set()
        if not isinstance(node, ast.Lambda):
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    s.add(n.id)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                    continue
                if isinstance(n, ast.Lambda):
                    continue
                if isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                todo.extend(ast.iter_child_nodes(n))
        _ln[id(node)] = (s, node)
    return _ln[id(node)][0]


def declared(node, kind):
    if isinstance(node, ast.Lambda):
        return ()
    k = (id(node), kind)
    if k not in _ln:
        s = set()
        for n in ast.walk(node):
            if isinstance(n, kind):
                s.update(n.names)
        _ln[k] = (s, node)
    return _ln[k][0]


STDMODS = ('os', 'sys', 're', 'codecs', 'warnings', 'signal', 'hashlib', 'multiprocessing')
STAR = {'bagit': ['Bag', 'BagError', 'BagValidationError', 'CHECKSUM_ALGOS', 'DEFAULT_CHECKSUMS', 'LOGGER', 'UNICODE_BYTE_ORDER_MARK', 'codecs',
                  'BagManifestConflict', 'FileMissing', 'UnexpectedFile', 'ChecksumMismatch', 'os', 'sys', 're', 'make_bag', 'warnings', 'signal', 'hashlib',
                  'posix_multiprocessing_available', 'normalize_unicode', 'find_locale_dir', 'build_unicode_normalized_lookup_dict', 'force_unicode',
                  'generate_manifest_lines', 'get_hashers', 'partial', 'defaultdict', 'FileNormalizationConflict', 'multiprocessing']}
CONSTS = {'sys.version_info': (3, 12, 3, 'final', 0), 'os.sep': '/', 'os.linesep': '\n', 'os.path.sep': '/', 'sys.platform': 'linux', 'os.curdir': '.',
          'os.name': 'posix', 'os.altsep': None}
