"""pyvc: meaning of Python's operators, built-in types and built-in functions on symbolic values."""
import ast
from core import *
from engine import shape_key
from program import *
import strs
from strs import uf

ABS = {'int', 'str'}
I, S, B, R = z3.IntSort(), z3.StringSort(), z3.BoolSort(), z3.RealSort()
LV = z3.DeclareSort('ListV')
LT_LIST = z3.Function('list_lt', LV, LV, B)


def And(*a):
    return z3.And(*a) if a else z3.BoolVal(True)


class Ops(object):
    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, SBool)):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, SInt):
            return wrap_bool(v.t != 0)
        if isinstance(v, SReal):
            return wrap_bool(v.t != 0)
        if isinstance(v, str):
            return v != ''
        if isinstance(v, SStr):
            for p in v.parts:
                if isinstance(p, str) or (isinstance(p, Atom) and 'nonempty' in p.tags):
                    return True
            n = strs.slen(v)
            return (n > 0) if isinstance(n, int) else wrap_bool(n.t > 0)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PList):
            if any(isinstance(s, El) for s in v.segs):
                return True
            if not v.segs:
                return False
            return wrap_bool(z3.Or(*[s.n > 0 for s in v.segs]))
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, (SMap, PSet)):
            if self.choose(2) == 0:
                k = z3.Const(fresh_name('key'), S)
                self.assume(z3.Select(v.has, k))
                r = True
            else:
                self.assume(v.has == z3.K(S, z3.BoolVal(False)))
                r = False
            if self.check() == z3.unsat:
                raise PathEnd()
            return r
        if isinstance(v, Obj):
            if isinstance(v.cls, PClass):
                for n in ('__bool__', '__nonzero__', '__len__'):
                    r = v.cls.lookup(n)
                    if r and isinstance(r[1], PFunc):
                        return self.truth(self.call_func(r[1], [v], {}))
            elif isinstance(v.cls, Ext) and (v.cls.dotted + '.__bool__') in self.models:
                return self.truth(self.call_ext(v.cls.dotted + '.__bool__', [v], {}))
            return True
        return True

    def truthy(self, v):
        return self.decide(self.truth(v))

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.identical(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and isinstance(x.cls, PClass):
                    r = x.cls.lookup('__ne__')
                    if r and isinstance(r[1], PFunc):
                        return self.call_func(r[1], [x, y], {})
            return self.neg(self.eq(a, b))
        return self.order(op, a, b)

    def neg(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, SBool):
            return wrap_bool(z3.Not(v.t))
        return not self.truthy(v)

    def identical(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return wrap_bool(bool_term(a) == bool_term(b))
        if isinstance(a, (Builtin, Ext)) or isinstance(b, (Builtin, Ext)):
            return a == b
        if isinstance(a, (HeapObj, PClass, PFunc)) or isinstance(b, (HeapObj, PClass, PFunc)):
            return a is b
        if type(a) is not type(b):
            return False
        raise Unsupported('identity of %r and %r' % (a, b))

    def eq(self, a, b):
        if isinstance(a, Obj) and isinstance(a.cls, PClass):
            r = a.cls.lookup('__eq__')
            if r and isinstance(r[1], PFunc):
                return self.call_func(r[1], [a, b], {})
        if isinstance(b, Obj) and isinstance(b.cls, PClass):
            r = b.cls.lookup('__eq__')
            if r and isinstance(r[1], PFunc):
                return self.call_func(r[1], [b, a], {})
        if a is None or b is None:
            return a is None and b is None
        if is_num(a) and is_num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            return wrap_bool(num_term(a) == num_term(b))
        if is_str(a) and is_str(b):
            return strs.seq(self, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, PList) and isinstance(b, PList):
            if a.kind != b.kind:
                return False
            return self.list_eq(a, b)
        if (isinstance(a, PList) and a.kind == 'tuple' and isinstance(b, tuple)) or \
                (isinstance(b, PList) and b.kind == 'tuple' and isinstance(a, tuple)):
            return self.list_eq(self.to_list(a), self.to_list(b))
        if isinstance(a, PDict) and isinstance(b, PDict):
            if set(a.d) != set(b.d):
                return False
            return self.conj([self.eq(a.d[k], b.d[k]) for k in a.d])
        if isinstance(a, HeapObj) or isinstance(b, HeapObj):
            if isinstance(a, (PSet, SMap)) and type(a) is type(b):
                raise Unsupported('equality of symbolic sets')
            return a is b
        if isinstance(a, (PClass, Builtin, Ext, PFunc)) or isinstance(b, (PClass, Builtin, Ext, PFunc)):
            return a == b
        if type(a) is not type(b):
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def conj(self, vs):
        ts = []
        for v in vs:
            v = self.truth(v)
            if v is False:
                return False
            if v is not True:
                ts.append(v.t)
        return wrap_bool(And(*ts)) if ts else True

    def list_value(self, lst):
        """a constant standing for the value of a list of integers: equal lists get the same one"""
        self.inexact('lists of numbers as ordered values')
        known = self.path.__dict__.setdefault('lvs', [])
        c = lst.concrete()
        for (other, k) in known:
            if other is lst and lst.segs == k[1]:
                return k[0]
        for (other, k) in known:
            r = self.same_list(lst.segs, k[1])
            if r:
                known.append((lst, (k[0], list(lst.segs))))
                return k[0]
        t = z3.Const(fresh_name('lv'), LV)
        for (other, k) in known:
            if not (k[0].eq(t)):
                u = k[0]
                self.assume(z3.Not(z3.And(LT_LIST(t, u), LT_LIST(u, t))))
                self.assume(z3.Or(LT_LIST(t, u), LT_LIST(u, t), t == u))
                self.assume(z3.Implies(t == u, z3.Not(LT_LIST(t, u))))
                nt, nu = int_term(self.length(lst)), seg_len(k[1])
                self.assume(z3.Implies(z3.And(nt == 0, nu == 0), t == u))
                self.assume(z3.Implies(t == u, nt == nu))
        us = []
        for (other, k) in known:
            if not any(k[0].eq(x) for x in us):
                us.append(k[0])
        for x in us:
            for y in us:
                for (p, q, r) in ((t, x, y), (x, t, y), (x, y, t)):
                    self.assume(z3.Implies(z3.And(LT_LIST(p, q), LT_LIST(q, r)), LT_LIST(p, r)))
        self.assume(z3.Not(LT_LIST(t, t)))
        known.append((lst, (t, list(lst.segs))))
        return t

    def same_list(self, sa, sb):
        if len(sa) != len(sb):
            return False
        for x, y in zip(sa, sb):
            if isinstance(x, El) != isinstance(y, El):
                return False
            if isinstance(x, El):
                if not (is_num(x.v) and is_num(y.v)) or not self.entails(num_term(x.v) == num_term(y.v)):
                    return False
            elif x is y:
                continue
            else:
                if x.shape.k != y.shape.k or x.shape.k not in ('int', 'str', 'bool'):
                    return False
                j = z3.Int(fresh_name('j'))
                if not self.entails(z3.And(x.n == y.n, z3.Implies(z3.And(j >= 0, j < x.n), x.sel((), j) == y.sel((), j)))):
                    return False
        return True

    def list_eq(self, a, b):
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(ca, cb)])
        if self.int_list(a) and self.int_list(b):
            ta, tb = self.list_value(a), self.list_value(b)
            if self.same_list(a.segs, b.segs):
                self.assume(ta == tb)
                return True
            return wrap_bool(ta == tb)
        if self.same_list(a.segs, b.segs):
            return True
        # same structure, element by element
        la, lb = int_term(self.length(a)), int_term(self.length(b))
        if not self.decide(la == lb):
            return False
        if self.entails(la == 0):
            return True
        if self.choose(2) == 0:
            j = z3.Int(fresh_name('j'))
            self.assume(z3.And(j >= 0, j < la))
            self.assume(z3.Not(bool_term(self.eq(self.list_get(a, SInt(j)), self.list_get(b, SInt(j))))))
            return False
        self.inexact('list equality')
        self.path.__dict__.setdefault('eqlists', []).append((a, b))
        return True

    def int_list(self, a):
        return all((isinstance(s, El) and is_int(s.v)) or (isinstance(s, SymSeg) and s.shape.k == 'int') for s in a.segs)

    def order(self, op, a, b):
        nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[type(op).__name__]
        rf = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[nm]
        for x, y, n in ((a, b, nm), (b, a, rf)):
            if isinstance(x, Obj) and isinstance(x.cls, PClass):
                r = x.cls.lookup(n)
                if r and isinstance(r[1], PFunc):
                    return self.call_func(r[1], [x, y], {})
        if is_num(a) and is_num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return {'__lt__': a < b, '__le__': a <= b, '__gt__': a > b, '__ge__': a >= b}[nm]
            x, y = num_term(a), num_term(b)
            return wrap_bool({'__lt__': x < y, '__le__': x <= y, '__gt__': x > y, '__ge__': x >= y}[nm])
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return {'__lt__': a < b, '__le__': a <= b, '__gt__': a > b, '__ge__': a >= b}[nm]
            x, y = str_term(a), str_term(b)
            f = lambda p, q: z3.StrLT(p, q) if hasattr(z3, 'StrLT') else p < q
            g = lambda p, q: p <= q
            return wrap_bool({'__lt__': x < y, '__le__': x <= y, '__gt__': y < x, '__ge__': y <= x}[nm])
        la = isinstance(a, PList) or isinstance(a, tuple)
        lb = isinstance(b, PList) or isinstance(b, tuple)
        if la and lb:
            ka = 'tuple' if isinstance(a, tuple) else a.kind
            kb = 'tuple' if isinstance(b, tuple) else b.kind
            if ka != kb:
                raise self.pyexc('TypeError', 'not supported between instances of %s and %s' % (ka, kb))
            a, b = self.to_list(a), self.to_list(b)
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                # lexicographic
                for x, y in zip(ca, cb):
                    if not self.decide(self.truth(self.eq(x, y))):
                        return self.order(ast.Lt() if nm in ('__lt__', '__le__') else ast.Gt(), x, y)
                return {'__lt__': len(ca) < len(cb), '__le__': len(ca) <= len(cb), '__gt__': len(ca) > len(cb),
                        '__ge__': len(ca) >= len(cb)}[nm]
            if not (self.int_list(a) and self.int_list(b)):
                raise Unsupported('order of symbolic lists')
            x, y = self.list_value(a), self.list_value(b)
            return wrap_bool({'__lt__': LT_LIST(x, y), '__gt__': LT_LIST(y, x), '__le__': z3.Or(LT_LIST(x, y), x == y),
                              '__ge__': z3.Or(LT_LIST(y, x), x == y)}[nm])
        ta, tb = self.class_of(a), self.class_of(b)
        raise self.pyexc('TypeError', 'not supported between instances of %r and %r' % (ta, tb))

    # ------------------------------------------------------------ membership
    def contains(self, c, x):
        if is_str(c):
            if not is_str(x):
                raise self.pyexc('TypeError', 'in <string> requires string')
            return strs.contains(self, c, x)
        if isinstance(c, PDict):
            if isinstance(x, (str, int, tuple, float)):
                if any(not isinstance(k, (str, int, tuple, float)) for k in c.d):
                    raise Unsupported('dict keys')
                return x in c.d
            return self.disj([self.eq(x, k) for k in c.d if self.same_kind(k, x)])
        if isinstance(c, SMap):
            if not is_str(x):
                return False
            return wrap_bool(z3.Select(c.has, str_term(x)))
        if isinstance(c, PSet):
            if not is_str(x):
                return False
            return wrap_bool(z3.Select(c.has, str_term(x)))
        if isinstance(c, Iter):
            c = c.lst
        if isinstance(c, tuple):
            return self.disj([self.eq(x, y) for y in c])
        if isinstance(c, PList):
            terms = []
            for s in c.segs:
                if isinstance(s, El):
                    r = self.eq(x, s.v)
                else:
                    r = self.seg_contains(s, x)
                r = self.truth(r)
                if r is True:
                    return True
                if r is not False:
                    terms.append(r)
            return self.disj(terms)
        if isinstance(c, Obj):
            if isinstance(c.cls, PClass):
                r = c.cls.lookup('__contains__')
                if r:
                    return self.truth(self.call(r[1], [c, x], {}))
            elif isinstance(c.cls, Ext) and (c.cls.dotted + '.__contains__') in self.models:
                return self.truth(self.call_ext(c.cls.dotted + '.__contains__', [c, x], {}))
            raise Unsupported('in %r' % (c,))
        if c is None:
            raise self.pyexc('TypeError', 'argument of type NoneType is not iterable')
        raise Unsupported('in %r' % (c,))

    def same_kind(self, a, b):
        return (is_num(a) and is_num(b)) or (is_str(a) and is_str(b)) or (isinstance(a, tuple) and isinstance(b, tuple))

    def disj(self, vs):
        ts = []
        for v in vs:
            v = self.truth(v)
            if v is True:
                return True
            if v is not False:
                ts.append(v.t)
        return wrap_bool(z3.Or(*ts)) if ts else False

    def seg_contains(self, s, x):
        if self.entails(s.n == 0):
            return False
        for h in self.member_hooks:
            r = h(self, s, x)
            if r is not None:
                return wrap_bool(r) if not isinstance(r, (bool, SBool)) else r
        if not (s.shape.k in ('str', 'int') and ((s.shape.k == 'str') == is_str(x))):
            if s.shape.k in ('str', 'int', 'bool', 'none') and (x is None or is_num(x) or is_str(x)):
                return False
            if s.shape.k != 'tuple':
                raise Unsupported('in: a symbolic list of %s' % s.shape.k)
        if self.choose(2) == 0:
            j = z3.Int(fresh_name('at'))
            self.assume(z3.And(j >= 0, j < s.n))
            self.assume(bool_term(self.truth(self.eq(s.get(j), x))))
            if self.check() == z3.unsat:
                raise PathEnd()
            return True
        self.add_fact(s, lambda j, v: z3.Not(bool_term(self.truth(self.eq(v, x)))))
        return False

    def add_fact(self, seg, f):
        """f(j, v) holds of every element: instantiated at each access"""
        seg.facts = seg.facts + (f,)
        for (v, j) in list(seg.cache.values()):
            self.assume(z3.Implies(z3.And(j >= 0, j < seg.n), f(j, v)))

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        k = type(op).__name__
        if isinstance(a, (bool, SBool)) and k in ('BitAnd', 'BitOr', 'BitXor') and isinstance(b, (bool, SBool)):
            x, y = bool_term(a), bool_term(b)
            return wrap_bool({'BitAnd': z3.And(x, y), 'BitOr': z3.Or(x, y), 'BitXor': z3.Xor(x, y)}[k])
        if is_num(a) and is_num(b):
            return self.arith(k, a, b)
        if k == 'Add':
            if is_str(a) and is_str(b):
                return strs.concat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
                ka = 'tuple' if isinstance(a, tuple) else a.kind
                kb = 'tuple' if isinstance(b, tuple) else b.kind
                if ka == kb:
                    r = self.newobj(PList(self.copy_segs(self.to_list(a)) + self.copy_segs(self.to_list(b))))
                    r.kind = ka
                    return r
            raise self.pyexc('TypeError', 'unsupported operand types for +')
        if k == 'Mod' and is_str(a):
            return strs.percent(self, a, b)
        if k == 'Mult':
            if is_str(b) and is_int(a):
                a, b = b, a
            if is_str(a) and is_int(b):
                if isinstance(a, str) and isinstance(b, int):
                    return a * b
                return self.str_repeat(a, b)
            if isinstance(b, (PList, tuple)) and is_int(a):
                a, b = b, a
            if isinstance(a, (PList, tuple)) and isinstance(b, int):
                l = self.to_list(a)
                c = l.concrete()
                if c is None:
                    raise Unsupported('repetition of a symbolic list')
                r = self.newobj(mklist(c * b))
                r.kind = getattr(l, 'kind', 'list')
                return tuple(c * b) if isinstance(a, tuple) else r
            if isinstance(a, PList) and isinstance(b, SInt):
                c = a.concrete()
                if c is not None and len(c) == 1:
                    v = c[0]
                    sh = self.shape_of(v)
                    lv = dict(self.to_leaves(v, sh))
                    n = z3.If(b.t > 0, b.t, z3.IntVal(0))
                    meas = {}
                    for m in self.measures:
                        if m.applies(sh):
                            meas[m.name] = n * m.elem(self, v)
                    seg = SymSeg(self, n, sh, lambda p, j: lv[p], meas)
                    for x in seg.axioms():
                        self.assume(x)
                    return self.newobj(PList([seg]))
        if k == 'Sub' and isinstance(a, PSet) and isinstance(b, PSet):
            x = z3.Const(fresh_name('k'), S)
            return self.newobj(PSet(z3.Lambda([x], z3.And(z3.Select(a.has, x), z3.Not(z3.Select(b.has, x)))), a.tags))
        if k == 'BitOr' and isinstance(a, PSet) and isinstance(b, PSet):
            x = z3.Const(fresh_name('k'), S)
            return self.newobj(PSet(z3.Lambda([x], z3.Or(z3.Select(a.has, x), z3.Select(b.has, x))), a.tags & b.tags))
        if k == 'BitAnd' and isinstance(a, PSet) and isinstance(b, PSet):
            x = z3.Const(fresh_name('k'), S)
            return self.newobj(PSet(z3.Lambda([x], z3.And(z3.Select(a.has, x), z3.Select(b.has, x))), a.tags | b.tags))
        if isinstance(a, (HeapObj, tuple)) or isinstance(b, (HeapObj, tuple)) or (is_str(a) or is_str(b)) or a is None or b is None:
            if not (isinstance(a, Obj) or isinstance(b, Obj)):
                if k in ('Sub', 'Add', 'Div', 'Mult', 'FloorDiv', 'Mod', 'BitAnd'):
                    raise self.pyexc('TypeError', 'unsupported operand types for ' + k)
        raise Unsupported('%s of %r and %r' % (k, a, b))

    def str_repeat(self, a, n):
        """a * n with a symbolic count: only its length is known"""
        la = int_term(strs.slen(a))
        t = z3.Const(fresh_name('rep'), S)
        nn = int_term(n)
        self.assume(z3.Length(t) == z3.If(nn > 0, la * nn, z3.IntVal(0)))
        self.inexact('string repetition')
        return SStr([Atom(t)])

    def arith(self, k, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b,
                        'Mod': lambda: a % b, 'Pow': lambda: a ** b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b,
                        'BitXor': lambda: a ^ b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b}[k]()
            except ZeroDivisionError:
                raise self.pyexc('ZeroDivisionError')
            except TypeError:
                raise self.pyexc('TypeError')
        x, y = num_term(a), num_term(b)
        isr = z3.is_real(x) or z3.is_real(y)
        if k in ('Add', 'Sub', 'Mult'):
            if isr:
                x, y = toreal(x), toreal(y)
                self.inexact('floating point as real numbers')
            t = x + y if k == 'Add' else x - y if k == 'Sub' else x * y
            return wrap_real(t) if isr else wrap_int(t)
        if k == 'Div':
            if self.decide(y == 0):
                raise self.pyexc('ZeroDivisionError')
            self.inexact('floating point as real numbers')
            self.used_models.add('(float division: the exact quotient)')
            return wrap_real(toreal(x) / toreal(y))
        if k in ('FloorDiv', 'Mod'):
            if self.decide(y == 0):
                raise self.pyexc('ZeroDivisionError')
            if isr:
                raise Unsupported('floor division of reals')
            if self.entails(y > 0):
                q, m = x / y, x % y
            elif self.entails(y < 0):
                q, m = (-x) / (-y), -((-x) % (-y))
            else:
                if self.decide(y > 0):
                    q, m = x / y, x % y
                else:
                    q, m = (-x) / (-y), -((-x) % (-y))
            return wrap_int(q if k == 'FloorDiv' else m)
        if k in ('BitAnd', 'BitOr') and isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and 0 <= b < 64 and k == 'BitAnd':
                # bits of a below 2^6, a any integer (two's complement): bit i of a = (a div 2^i) mod 2
                t = z3.IntVal(0)
                for i in range(6):
                    if b >> i & 1:
                        t = t + ((a.t / (1 << i)) % 2) * (1 << i)
                return wrap_int(t)
            bits = self.bits_of(a), self.bits_of(b)
            if bits[0] is not None and bits[1] is not None:
                t = z3.IntVal(0)
                for i in range(4):
                    x1, y1 = (bits[0] / (1 << i)) % 2, (bits[1] / (1 << i)) % 2
                    bit = z3.If(z3.And(x1 == 1, y1 == 1), 1, 0) if k == 'BitAnd' else z3.If(z3.Or(x1 == 1, y1 == 1), 1, 0)
                    t = t + bit * (1 << i)
                return wrap_int(t)
        if k == 'Pow' and isinstance(b, int) and 0 <= b <= 4 and not isr:
            t = z3.IntVal(1)
            for i in range(b):
                t = t * x
            return wrap_int(t)
        raise Unsupported('%s of symbolic numbers' % k)

    def bits_of(self, v):
        t = int_term(v)
        return t if self.entails(z3.And(t >= 0, t < 16)) else None

    # ------------------------------------------------------------ lists
    def to_list(self, v):
        """the elements of an iterable, as a PList (not a copy for lists)"""
        if isinstance(v, PList):
            return v
        if isinstance(v, tuple):
            return self.newobj(mklist(v))
        if isinstance(v, Iter):
            return v.lst
        if isinstance(v, PDict):
            return self.newobj(mklist(list(v.d)))
        if isinstance(v, str):
            return self.newobj(mklist(list(v)))
        if isinstance(v, (SMap, PSet)):
            if isinstance(v, PSet):
                self.inexact('a set as a list')
            return self.newobj(PList([self.keys_seg(v)]))
        if isinstance(v, Obj):
            if isinstance(v.cls, PClass):
                r = v.cls.lookup('__iter__')
                if r:
                    it = self.call(r[1], [v], {})
                    if it is v:
                        raise Unsupported('iteration over an iterator object')
                    return self.to_list(it)
            h = self.models.get('iter:' + (v.cls.dotted if isinstance(v.cls, Ext) else v.cls.name))
            if h:
                return self.to_list(h(self, [v], {}))
        if v is None or is_num(v):
            raise self.pyexc('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def map_of_pairs(self, lst):
        """dict(list of pairs): what holds of the key K: it is there if it occurs, with the value of the last occurrence, at the place of the first"""
        if not (self.single_sym(lst) and lst.segs[0].shape.k == 'tuple' and len(lst.segs[0].shape.els) == 2 and lst.segs[0].shape.els[0].k == 'str'):
            raise Unsupported('dict() of a symbolic list')
        s = lst.segs[0]
        for u, m in self.path.__dict__.setdefault('pairmaps', []):
            if u is s:
                return self.newobj(m.clone())
        m = self.fresh(Sh('map', val=s.shape.els[1], ktags=s.shape.els[0].tags), 'pairs')
        K, J = self.K, self.J
        key = lambda j: s.sel((('t', 0),), j)
        p, q = z3.Int(fresh_name('last')), z3.Int(fresh_name('first'))
        has = z3.Select(m.has, K)
        self.assume(m.nxt == s.n)
        self.assume(z3.Implies(has, z3.And(p >= 0, p < s.n, key(p) == K, q >= 0, q <= p, key(q) == K, z3.Select(m.ordr, K) == q)))
        for j in (p, J):
            self.assume(z3.Implies(z3.And(j >= 0, j < s.n, key(j) == K), z3.And(has, j <= p, j >= q)))
        for path in m.val:
            self.assume(z3.Implies(has, z3.Select(m.val[path], K) == s.sel((('t', 1),) + path, p)))
        for x in self.measures:
            if x.name in s.meas and getattr(x, 'key', False):
                self.assume(has == (s.meas[x.name] > 0))
        self.inexact('dict() of a list')
        self.path.pairmaps.append((s, m.clone()))
        return m

    def keys_seg(self, m):
        has = m.has
        ck = (has.get_id(), m.ordr.get_id() if isinstance(m, SMap) else None)
        for k, s, hold in self.path.__dict__.setdefault('keysegs', []):
            if k == ck:
                return s
        seg = self.fresh_seg(Sh('str', tags=frozenset(getattr(m, 'ktags', ()) or getattr(m, 'tags', ()))), 'keys')
        self.path.keysegs.append((ck, seg, (has, getattr(m, 'ordr', None))))
        if z3.is_const_array(has) and z3.is_false(has.arg(0)):
            self.assume(seg.n == 0)
            for x in self.measures:
                if x.name in seg.meas:
                    self.assume(seg.meas[x.name] == 0)
        # every element is a key, elements are distinct, and a key has a place
        pos = z3.Function(fresh_name('pos'), S, I)
        self.add_fact(seg, lambda j, v: z3.And(z3.Select(has, str_term(v)), pos(str_term(v)) == j))
        seg.keysof = (has, pos)
        ws = [self.K] + [x.witness(self) for x in self.measures if getattr(x, 'witness', None)]
        for w in ws:
            self.assume(z3.Implies(z3.Select(has, w), z3.And(pos(w) >= 0, pos(w) < seg.n, seg.sel((), pos(w)) == w)))
        for x in self.measures:
            if x.name in seg.meas and getattr(x, 'witness', None) and x.unit:
                self.assume(seg.meas[x.name] == z3.If(z3.Select(has, x.witness(self)), z3.IntVal(1), z3.IntVal(0)))
        return seg

    def length(self, v):
        if is_str(v):
            return strs.slen(v)
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, PList):
            t = z3.IntVal(0)
            for s in v.segs:
                t = t + (1 if isinstance(s, El) else s.n)
            return wrap_int(t)
        if isinstance(v, PDict):
            return len(v.d)
        if isinstance(v, (SMap, PSet)):
            n = uf('card', z3.ArraySort(S, B), I)(v.has)
            self.assume(n >= 0)
            self.assume((n == 0) == (v.has == z3.K(S, z3.BoolVal(False))))
            return wrap_int(n)
        if isinstance(v, Obj) and isinstance(v.cls, PClass):
            r = v.cls.lookup('__len__')
            if r:
                return self.call(r[1], [v], {})
        if v is None or is_num(v):
            raise self.pyexc('TypeError', 'object has no len()')
        raise Unsupported('len of %r' % (v,))

    def share(self, seg):
        if mutable_shape(seg.shape):
            seg.tags = seg.tags | {'shared'}
        return seg

    def copy_segs(self, lst):
        return [self.share(s) if isinstance(s, SymSeg) else s for s in lst.segs]

    def norm_index(self, lst, i, what='index'):
        """index term in range, raising IndexError otherwise"""
        n = self.length(lst)
        if isinstance(i, (bool, SBool)):
            i = wrap_int(int_term(i))
        if not is_int(i):
            raise self.pyexc('TypeError', 'list indices must be integers')
        nt, it = int_term(n), int_term(i)
        neg = self.decide(wrap_bool(it < 0))
        if neg:
            it = z3.simplify(nt + it)
        if not self.decide(wrap_bool(z3.And(it >= 0, it < nt))):
            raise self.pyexc('IndexError', 'list index out of range')
        return z3.simplify(it)

    def locate(self, lst, it):
        """(position of the segment, offset within it) of index term it"""
        off = z3.IntVal(0)
        for k, s in enumerate(lst.segs):
            n = z3.IntVal(1) if isinstance(s, El) else s.n
            last = k == len(lst.segs) - 1
            if last or self.decide(wrap_bool(it < off + n)):
                return k, z3.simplify(it - off)
            off = z3.simplify(off + n)
        raise Unsupported('index')

    def list_get(self, lst, i):
        if isinstance(lst, tuple):
            if isinstance(i, int):
                if -len(lst) <= i < len(lst):
                    return lst[i]
                raise self.pyexc('IndexError', 'tuple index out of range')
            lst = self.to_list(lst)
        c = lst.concrete()
        if c is not None and isinstance(i, int):
            if -len(c) <= i < len(c):
                return c[i]
            raise self.pyexc('IndexError', 'list index out of range')
        # from the end, through single elements
        if isinstance(i, int) and i < 0 and all(isinstance(s, El) for s in lst.segs[i:]) and len(lst.segs) >= -i:
            return lst.segs[i].v
        it = self.norm_index(lst, i)
        k, off = self.locate(lst, it)
        s = lst.segs[k]
        return s.v if isinstance(s, El) else s.get(off, lst)

    def list_wr(self, lst):
        if lst.kind != 'list':
            raise self.pyexc('AttributeError', 'tuple')
        self.wr(lst)

    def list_append(self, lst, v):
        self.list_wr(lst)
        lst.segs.append(El(v))

    def list_extend(self, lst, v):
        src = self.to_list(v)
        self.list_wr(lst)
        add = self.copy_segs(src) if not isinstance(v, Iter) else list(src.segs)
        lst.segs.extend(add)
        if isinstance(v, Iter):
            self.drain(v)

    def drain(self, it):
        self.wr(it)
        it.lst = self.newobj(PList())

    def list_pop(self, lst, i=None, drop=False):
        self.list_wr(lst)
        if i is None:
            i = -1
        if isinstance(i, int) and lst.concrete() is not None:
            if not -len(lst.segs) <= i < len(lst.segs):
                raise self.pyexc('IndexError', 'pop from empty list')
            return lst.segs.pop(i).v
        if i == -1 and lst.segs and isinstance(lst.segs[-1], El):
            return lst.segs.pop().v
        if i == 0 and lst.segs and isinstance(lst.segs[0], El):
            return lst.segs.pop(0).v
        it = self.norm_index(lst, i)
        k, off = self.locate(lst, it)
        s = lst.segs[k]
        if isinstance(s, El):
            del lst.segs[k]
            return s.v
        v = s.get(off, lst)
        pre, post = self.cut(s, off, off + 1)
        for m in self.measures:
            if m.name in s.meas:
                self.assume(s.meas[m.name] == pre.meas[m.name] + post.meas[m.name] + m.elem(self, v))
        if hasattr(v, 'origin'):
            # an element that other lists have as well: must not be changed
            v.origin = (None, s, off) if 'shared' in s.tags and not drop else None
        merged = self.glue(pre, post, s)
        lst.segs[k:k + 1] = [merged]
        return v

    def glue(self, pre, post, s):
        """one run for pre followed by post"""
        a = pre.n
        sel = lambda p, j: z3.If(j < a, pre.sel(p, j), post.sel(p, z3.simplify(j - a)))
        meas = dict((m, pre.meas[m] + post.meas[m]) for m in pre.meas)
        seg = SymSeg(self, z3.simplify(pre.n + post.n), s.shape, sel, meas, s.tags)
        seg.facts = ()
        for f in s.facts:
            # the element left out lies between
            seg.facts += (lambda j, v, f=f: f(z3.If(j < a, j, j + 1), v),)
        return seg

    def list_insert(self, lst, i, v):
        self.list_wr(lst)
        if isinstance(i, int) and 0 <= i <= len(lst.segs) and all(isinstance(s, El) for s in lst.segs[:i]):
            lst.segs.insert(i, El(v))
            return
        if isinstance(i, int) and lst.concrete() is not None:
            c = [s for s in lst.segs]
            c.insert(i, El(v))
            lst.segs[:] = c
            return
        raise Unsupported('insert at a symbolic place')

    def list_remove(self, lst, x):
        """remove the first element equal to x"""
        self.list_wr(lst)
        for k, s in enumerate(lst.segs):
            if isinstance(s, El):
                if self.truthy(self.eq(s.v, x)):
                    del lst.segs[k]
                    return
            else:
                if self.truthy(self.seg_contains(s, x)):
                    j = z3.Int(fresh_name('rm'))
                    self.assume(z3.And(j >= 0, j < s.n))
                    v = s.get(j, lst)
                    self.assume(bool_term(self.truth(self.eq(v, x))))
                    pre, post = self.cut(s, j, j + 1)
                    for m in self.measures:
                        if m.name in s.meas:
                            self.assume(s.meas[m.name] == pre.meas[m.name] + post.meas[m.name] + m.elem(self, v))
                    # the first one: not in pre
                    if s.shape.k in ('str', 'int'):
                        self.add_fact(pre, lambda jj, vv: z3.Not(bool_term(self.truth(self.eq(vv, x)))))
                        for h in self.member_hooks:
                            r = h(self, pre, x)
                            if r is not None:
                                self.assume(z3.Not(r if not isinstance(r, bool) else z3.BoolVal(r)))
                    lst.segs[k:k + 1] = [pre, post]
                    return
        raise self.pyexc('ValueError', 'list.remove(x): x not in list')

    def list_index(self, lst, x):
        off = z3.IntVal(0)
        for s in lst.segs:
            if isinstance(s, El):
                if self.truthy(self.eq(s.v, x)):
                    return wrap_int(off)
                off = off + 1
            else:
                if self.truthy(self.seg_contains(s, x)):
                    j = z3.Int(fresh_name('ix'))
                    self.assume(z3.And(j >= 0, j < s.n))
                    self.assume(bool_term(self.truth(self.eq(s.get(j), x))))
                    return wrap_int(off + j)
                off = off + s.n
        raise self.pyexc('ValueError', 'not in list')

    def list_slice(self, lst, sl):
        c = lst.concrete() if not isinstance(lst, tuple) else list(lst)
        a, b, st = sl.start, sl.stop, sl.step
        conc = all(x is None or isinstance(x, int) for x in (a, b, st))
        if c is not None and conc:
            r = c[slice(a, b, st)]
            return tuple(r) if isinstance(lst, tuple) else self.mk(r, lst.kind)
        if isinstance(lst, tuple):
            lst = self.to_list(lst)
        if st == -1 and a is None and b is None:
            r = self.list_reversed(lst)
            r.kind = lst.kind
            return r
        if st not in (None, 1):
            raise Unsupported('list slice with a step')
        n = int_term(self.length(lst))

        def bound(x, dflt):
            if x is None:
                return dflt
            t = int_term(x)
            if self.decide(wrap_bool(t < 0)):
                t = t + n
                if self.decide(wrap_bool(t < 0)):
                    t = z3.IntVal(0)
            if self.decide(wrap_bool(t > n)):
                t = n
            return z3.simplify(t)
        lo, hi = bound(a, z3.IntVal(0)), bound(b, n)
        if not self.decide(wrap_bool(lo < hi)):
            return self.mk([], lst.kind)
        segs = list(lst.segs)
        # drop from the front
        out = self.drop(segs, lo)
        out = self.take(out, z3.simplify(hi - lo))
        r = self.newobj(PList(out))
        r.kind = lst.kind
        return r

    def mk(self, vals, kind='list'):
        r = self.newobj(mklist(vals))
        r.kind = kind
        return r

    def drop(self, segs, k):
        out = []
        left = k
        for i, s in enumerate(segs):
            if lit(z3.simplify(left)) == 0:
                return out + segs[i:]
            if isinstance(s, El):
                if self.decide(wrap_bool(left >= 1)):
                    left = z3.simplify(left - 1)
                    continue
                return out + segs[i:]
            if self.decide(wrap_bool(left >= s.n)):
                left = z3.simplify(left - s.n)
                continue
            pre, post = self.cut(s, left, left)
            for m in s.meas:
                self.assume(s.meas[m] == pre.meas[m] + post.meas[m])
            return [self.share(post)] + segs[i + 1:]
        return []

    def take(self, segs, k):
        out = []
        left = k
        for s in segs:
            if lit(z3.simplify(left)) == 0:
                return out
            if isinstance(s, El):
                if not self.decide(wrap_bool(left >= 1)):
                    return out
                out.append(s)
                left = z3.simplify(left - 1)
                continue
            if self.decide(wrap_bool(left >= s.n)):
                out.append(self.share(s))
                left = z3.simplify(left - s.n)
                continue
            pre, post = self.cut(s, left, left)
            for m in s.meas:
                self.assume(s.meas[m] == pre.meas[m] + post.meas[m])
            return out + [self.share(pre)]
        return out

    def list_reversed(self, lst):
        out = []
        for s in reversed(lst.segs):
            if isinstance(s, El):
                out.append(s)
            else:
                out.append(self.rev_seg(s))
        return self.newobj(PList(out))

    def rev_seg(self, s):
        self.share(s)
        n = s.n
        r = SymSeg(self, n, s.shape, lambda p, j: s.sel(p, z3.simplify(n - 1 - j)), dict(s.meas), [t for t in s.tags if not str(t).startswith('order:')])
        r.rev_of = s
        for f in s.facts:
            r.facts += (lambda j, v, f=f: f(z3.simplify(n - 1 - j), v),)
        return r

    def list_sort(self, lst, key=None, reverse=False):
        """in place; a permutation: the measures stay, the order is tagged with the key"""
        c = lst.concrete()
        self.list_wr(lst)
        if c is not None and len(c) <= 1:
            return
        if c is not None and key is None and all(isinstance(x, (str, int)) for x in c):
            lst.segs[:] = [El(x) for x in sorted(c, reverse=self.truthy(reverse))]
            return
        sh = None
        meas = {}
        for s in lst.segs:
            x = s.shape if isinstance(s, SymSeg) else self.shape_of(s.v)
            sh = x if sh is None else self.join(sh, x)
        if sh is None:
            return
        n = int_term(self.length(lst))
        for m in self.measures:
            if m.applies(sh):
                t = self.measure(lst, m.name)
                if t is not None:
                    meas[m.name] = t
        tag = self.sort_tag(lst, sh, key, reverse)
        seg0 = self.fresh_seg(sh, 'sorted')
        seg = SymSeg(self, z3.simplify(n), sh, seg0.sel, meas, [tag] if tag else [])
        for a in seg.axioms():
            self.assume(a)
        # elements come from the list: facts of a single run carry over
        if len(lst.segs) == 1 and isinstance(lst.segs[0], SymSeg):
            src = lst.segs[0]
            if mutable_shape(sh):
                src.tags = src.tags | {'shared'}
            g = z3.Function(fresh_name('perm'), I, I)

            def fact(j, v):
                return z3.And(g(j) >= 0, g(j) < src.n, *[seg.sel(p, j) == src.sel(p, g(j)) for p, _ in self.leaves(sh)])
            seg.facts = (fact,)
        self.inexact('sort')
        lst.segs[:] = [seg]

    def sort_tag(self, lst, sh, key, reverse):
        """order:desc:<field> or order:asc:<field> when the key provably orders by that field first"""
        for h in getattr(self, 'sort_hooks', []):
            r = h(self, lst, sh, key, reverse)
            if r:
                return r
        return None

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        if isinstance(o, PDict):
            return self.dict_get(o, i, True)
        if isinstance(i, slice):
            if is_str(o):
                if i.step not in (None, 1):
                    if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                        return o[i]
                    raise Unsupported('string slice')
                return strs.slice_str(self, o, i.start, i.stop)
            return self.list_slice(o, i)
        if isinstance(o, (PList, tuple)):
            return self.list_get(o, i)
        if is_str(o):
            if isinstance(o, str) and isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                raise self.pyexc('IndexError', 'string index out of range')
            if i == 0:
                if not self.truthy(o):
                    raise self.pyexc('IndexError', 'string index out of range')
                p = str_parts(o)[0]
                if isinstance(p, str):
                    return p[0]
                return SStr([Atom(z3.SubString(str_term(o), 0, 1), ['nonempty'])])
            if i == -1:
                if not self.truthy(o):
                    raise self.pyexc('IndexError', 'string index out of range')
                p = str_parts(o)[-1]
                if isinstance(p, str):
                    return p[-1]
                t = str_term(o)
                return SStr([Atom(z3.SubString(t, z3.Length(t) - 1, 1), ['nonempty'])])
            raise Unsupported('string index')
        if isinstance(o, SMap):
            k = i
            if not is_str(k):
                raise self.pyexc('KeyError', k)
            kt = str_term(k)
            if not self.decide(wrap_bool(z3.Select(o.has, kt))):
                raise self.pyexc('KeyError', k)
            return self.smap_val(o, kt)
        if isinstance(o, Obj):
            if isinstance(o.cls, PClass):
                r = o.cls.lookup('__getitem__')
                if r:
                    return self.call(r[1], [o, i], {})
            elif isinstance(o.cls, Ext) and (o.cls.dotted + '.__getitem__') in self.models:
                return self.call_ext(o.cls.dotted + '.__getitem__', [o, i], {})
        if o is None or is_num(o):
            raise self.pyexc('TypeError', 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def smap_val(self, o, kt):
        return self.build(o.vshape, lambda p: z3.Select(o.val[p], kt))

    def dict_get(self, o, i, strict=False, dflt=None):
        if isinstance(i, (str, int, tuple, float)) or i is None:
            if i in o.d:
                v = o.d[i]
                return v
            if strict:
                h = getattr(o, 'default', None)
                if h is not None:
                    v = h(self)
                    self.mutated(o)
                    self.wr(o, i)
                    o.d[i] = v
                    return v
                raise self.pyexc('KeyError', i)
            return dflt
        for k in list(o.d):
            if self.same_kind(k, i) and self.decide(self.truth(self.eq(k, i))):
                return o.d[k]
        if strict:
            raise self.pyexc('KeyError', i)
        return dflt

    def setitem(self, o, i, v):
        if isinstance(o, PDict):
            if not (isinstance(i, (str, int, tuple, float)) or i is None):
                for k in list(o.d):
                    if self.same_kind(k, i) and self.decide(self.truth(self.eq(k, i))):
                        i = k
                        break
                else:
                    if len(o.d) == 0 and is_str(i) and getattr(o, 'origin', None) is None:
                        raise Unsupported('symbolic key into a dict')
                    raise Unsupported('symbolic key into a dict')
            self.mutated(o)
            self.wr(o, i)
            o.d[i] = v
            return
        if isinstance(o, PList):
            if isinstance(i, slice):
                raise Unsupported('slice assignment')
            self.list_wr(o)
            if isinstance(i, int) and o.concrete() is not None:
                if not -len(o.segs) <= i < len(o.segs):
                    raise self.pyexc('IndexError', 'list assignment index out of range')
                o.segs[i] = El(v)
                return
            it = self.norm_index(o, i)
            k, off = self.locate(o, it)
            s = o.segs[k]
            if isinstance(s, El):
                o.segs[k] = El(v)
                return
            old = s.get(off, o)
            pre, post = self.cut(s, off, off + 1)
            for m in self.measures:
                if m.name in s.meas:
                    self.assume(s.meas[m.name] == pre.meas[m.name] + post.meas[m.name] + m.elem(self, old))
            o.segs[k:k + 1] = [pre, El(v), post]
            return
        if isinstance(o, SMap):
            if not is_str(i):
                raise Unsupported('key %r' % (i,))
            kt = str_term(i)
            self.wr(o)
            lv = dict(self.to_leaves(v, o.vshape))
            o.ordr = z3.Store(o.ordr, kt, z3.If(z3.Select(o.has, kt), z3.Select(o.ordr, kt), o.nxt))
            o.nxt = o.nxt + 1
            o.has = z3.Store(o.has, kt, z3.BoolVal(True))
            o.val = dict((p, z3.Store(o.val[p], kt, lv[p])) for p in o.val)
            return
        if isinstance(o, Obj):
            if isinstance(o.cls, PClass):
                r = o.cls.lookup('__setitem__')
                if r:
                    return self.call(r[1], [o, i, v], {})
            elif isinstance(o.cls, Ext) and (o.cls.dotted + '.__setitem__') in self.models:
                return self.call_ext(o.cls.dotted + '.__setitem__', [o, i, v], {})
        raise Unsupported('item assignment to %r' % (o,))

    def delitem(self, o, i):
        if isinstance(o, PDict):
            if not isinstance(i, (str, int, tuple, float)):
                for k in list(o.d):
                    if self.same_kind(k, i) and self.decide(self.truth(self.eq(k, i))):
                        i = k
                        break
                else:
                    raise self.pyexc('KeyError', i)
            if i not in o.d:
                raise self.pyexc('KeyError', i)
            self.mutated(o)
            self.wr(o, i)
            del o.d[i]
            return
        if isinstance(o, SMap):
            if not is_str(i):
                raise self.pyexc('KeyError', i)
            kt = str_term(i)
            if not self.decide(wrap_bool(z3.Select(o.has, kt))):
                raise self.pyexc('KeyError', i)
            self.wr(o)
            o.has = z3.Store(o.has, kt, z3.BoolVal(False))
            return
        if isinstance(o, PList):
            if isinstance(i, slice):
                raise Unsupported('del of a slice')
            self.list_pop(o, i, True)
            return
        if isinstance(o, Obj):
            if isinstance(o.cls, PClass):
                r = o.cls.lookup('__delitem__')
                if r:
                    return self.call(r[1], [o, i], {})
            elif isinstance(o.cls, Ext) and (o.cls.dotted + '.__delitem__') in self.models:
                return self.call_ext(o.cls.dotted + '.__delitem__', [o, i], {})
        raise Unsupported('del item of %r' % (o,))

    def to_leaves(self, v, sh):
        """the leaf terms of a value of this shape"""
        k = sh.k
        if k == 'int' and (is_int(v) or is_bool(v)):
            return [((), int_term(v))]
        if k == 'bool' and is_bool(v):
            return [((), bool_term(v))]
        if k == 'real' and is_num(v):
            return [((), toreal(num_term(v)))]
        if k == 'str' and is_str(v):
            return [((), str_term(v))]
        if k == 'none' and v is None:
            return []
        if k in ('const', 'opaque') and v is sh.v:
            return []
        if k == 'tuple' and isinstance(v, tuple) and len(v) == len(sh.els):
            return [((('t', i),) + p, t) for i, (x, a) in enumerate(zip(v, sh.els)) for p, t in self.to_leaves(x, a)]
        if k == 'rec' and isinstance(v, PDict) and sh.cls is None and set(v.d) == set(sh.fields):
            return [((('f', f),) + p, t) for f, a in sh.fields.items() for p, t in self.to_leaves(v.d[f], a)]
        if k == 'rec' and isinstance(v, Obj) and v.cls is sh.cls and set(v.attrs) == set(sh.fields):
            return [((('f', f),) + p, t) for f, a in sh.fields.items() for p, t in self.to_leaves(v.attrs[f], a)]
        if k == 'opt':
            for i, a in enumerate(sh.alts):
                try:
                    lv = dict(self.to_leaves(v, a))
                except Unsupported:
                    continue
                out = [(('tag',), z3.IntVal(i))]
                for i2, a2 in enumerate(sh.alts):
                    for p, s in self.leaves(a2):
                        out.append(((('alt', i2),) + p, lv[p] if i2 == i else z3.FreshConst(s, 'any')))
                return out
        if k == 'list' and isinstance(v, PList):
            if sh.elem is None:
                if v.segs:
                    raise Unsupported('list of another shape')
                return []
            if len(v.segs) == 1 and isinstance(v.segs[0], SymSeg):
                s = v.segs[0]
                if shape_key(s.shape) != shape_key(sh.elem) and self.leaves(s.shape) != self.leaves(sh.elem):
                    raise Unsupported('list of another shape')
                out = [(('n',), s.n)]
                for m in self.measures:
                    if m.applies(sh.elem):
                        out.append((('m', m.name), s.meas[m.name]))
                for p, srt in self.leaves(sh.elem):
                    j = z3.Int('lj')
                    out.append((('e',) + p, z3.Lambda([j], s.sel(p, j))))
                return out
            out = [(('n',), int_term(self.length(v)))]
            for m in self.measures:
                if m.applies(sh.elem):
                    t = self.measure(v, m.name)
                    if t is None:
                        raise Unsupported('measure')
                    out.append((('m', m.name), t))
            c = v.concrete()
            for p, srt in self.leaves(sh.elem):
                if c is not None and not any(isinstance(x, HeapObj) for x in c):
                    arr = z3.K(I, default_of(srt))
                    for i, x in enumerate(c):
                        arr = z3.Store(arr, i, dict(self.to_leaves(x, sh.elem))[p])
                else:
                    arr = z3.Const(fresh_name('arr'), z3.ArraySort(I, srt))
                out.append((('e',) + p, arr))
            return out
        raise Unsupported('value %r for shape %s' % (v, sh.k))

    # ------------------------------------------------------------ conversions
    def to_str(self, v):
        if is_str(v):
            return v
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, SInt):
            return strs.int_to_str(self, v)
        if isinstance(v, SBool):
            return 'True' if self.decide(v) else 'False'
        if isinstance(v, Obj):
            if isinstance(v.cls, PClass):
                r = v.cls.lookup('__str__')
                if r and isinstance(r[1], PFunc):
                    return self.call_func(r[1], [v], {})
        # some text
        self.inexact('text of an object')
        return SStr([Atom(z3.Const(fresh_name('text'), S))])

    def fmt_special(self, spec, a):
        if spec == '%r' or is_str(a):
            self.inexact('text of an object')
            return [Atom(z3.Const(fresh_name('text'), S))]
        h = self.models.get('fmt:' + spec)
        if h:
            return h(self, a)
        if is_num(a):
            self.inexact('formatted number')
            return [Atom(z3.Const(fresh_name('num'), S), ['nonempty'])]
        raise self.pyexc('TypeError', 'format')

    def to_int(self, v):
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, float):
            return int(v)
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return wrap_int(int_term(v))
        if isinstance(v, SReal):
            t = v.t
            return wrap_int(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise self.pyexc('ValueError', 'invalid literal for int()')
        if isinstance(v, SStr):
            if len(v.parts) == 1 and isinstance(v.parts[0], Atom) and 'digits' in v.parts[0].tags:
                return wrap_int(uf('str2int', S, I)(v.t))
            if not self.decide(uf('isint', S, B)(v.t)):
                raise self.pyexc('ValueError', 'invalid literal for int()')
            return wrap_int(uf('str2int', S, I)(v.t))
        raise self.pyexc('TypeError', 'int()')

    def to_set(self, v):
        if isinstance(v, PSet):
            return self.newobj(PSet(v.has, v.tags))
        if isinstance(v, SMap):
            return self.newobj(PSet(v.has, v.ktags))
        if isinstance(v, PDict):
            v = self.to_list(v)
        lst = self.to_list(v)
        has = z3.K(S, z3.BoolVal(False))
        sym = [s for s in lst.segs if isinstance(s, SymSeg)]
        if len(sym) > 1 or (sym and sym[0].shape.k not in ('str', 'none')):
            raise Unsupported('set of a symbolic list')
        if sym and sym[0].shape.k == 'str':
            s = sym[0]
            if s.keysof is not None:
                has = s.keysof[0]
            else:
                base = z3.Const(fresh_name('set'), z3.ArraySort(S, B))
                for x in self.measures:
                    if x.name in s.meas and getattr(x, 'key', False):
                        self.assume(z3.Select(base, x.witness(self)) == (s.meas[x.name] > 0))
                pos = z3.Function(fresh_name('pos'), S, I)
                self.add_fact(s, lambda j, vv: z3.Select(base, str_term(vv)))
                x = z3.Const(fresh_name('x'), S)
                self.path.__dict__.setdefault('setsof', []).append((base, s, pos))
                has = base
                for h in getattr(self, 'set_hooks', []):
                    h(self, base, s)
        for s in lst.segs:
            if isinstance(s, El):
                if not is_str(s.v):
                    raise Unsupported('set of %r' % (s.v,))
                has = z3.Store(has, str_term(s.v), z3.BoolVal(True))
        tags = None
        for s in lst.segs:
            t = s.shape.tags if isinstance(s, SymSeg) else self.shape_of(s.v).tags
            tags = t if tags is None else tags & t
        return self.newobj(PSet(has, tags or ()))

    # ------------------------------------------------------------ built-in functions
    def call_builtin(self, name, args, kw):
        m = getattr(self, 'b_' + name, None)
        if m is not None:
            return m(args, kw)
        if name in self.exc_names:
            return self.newobj(Obj(Builtin(name), {'args': tuple(args)}))
        h = self.models.get('builtins.' + name)
        if h:
            self.used_models.add('builtins.' + name)
            return h(self, args, kw)
        raise Unsupported('built-in ' + name)

    def b_len(self, a, kw):
        return self.length(a[0])

    def b_isinstance(self, a, kw):
        return self.is_sub(self.class_of(a[0]), a[1])

    def b_issubclass(self, a, kw):
        return self.is_sub(a[0], a[1])

    def b_int(self, a, kw):
        return self.to_int(a[0]) if a else 0

    def b_str(self, a, kw):
        return self.to_str(a[0]) if a else ''
    b_unicode = b_str

    def b_bool(self, a, kw):
        return self.truth(a[0]) if a else False

    def b_float(self, a, kw):
        v = a[0]
        if isinstance(v, (int, float)):
            return float(v)
        if is_num(v):
            return wrap_real(toreal(num_term(v)))
        raise Unsupported('float()')

    def b_list(self, a, kw):
        if not a:
            return self.newobj(PList())
        v = a[0]
        lst = self.to_list(v)
        r = self.newobj(PList(self.copy_segs(lst) if not isinstance(v, Iter) else list(lst.segs)))
        if isinstance(v, Iter):
            self.drain(v)
        return r

    def b_tuple(self, a, kw):
        if not a:
            return ()
        if isinstance(a[0], tuple):
            return a[0]
        lst = self.to_list(a[0])
        c = lst.concrete()
        segs = self.copy_segs(lst)
        if isinstance(a[0], Iter):
            self.drain(a[0])
        if c is not None:
            return tuple(c)
        r = self.newobj(PList(segs))
        r.kind = 'tuple'
        return r

    def b_dict(self, a, kw):
        d = self.newobj(PDict())
        d.origin = None
        if a:
            if isinstance(a[0], PDict):
                d.d.update(a[0].d)
            elif isinstance(a[0], SMap):
                if kw:
                    raise Unsupported('dict()')
                m = a[0]
                return self.newobj(m.clone())
            else:
                lst = self.to_list(a[0])
                c = lst.concrete()
                if c is None:
                    h = self.models.get('dict_of_list')
                    if h:
                        return h(self, a[0], lst)
                    if not kw:
                        return self.map_of_pairs(lst)
                    raise Unsupported('dict() of a symbolic list')
                for e in c:
                    k, v = self.unpack(e, 2)
                    if not isinstance(k, (str, int, tuple)):
                        raise Unsupported('dict() with symbolic keys')
                    d.d[k] = v
        d.d.update(kw)
        return d

    def b_set(self, a, kw):
        return self.to_set(a[0]) if a else self.newobj(PSet(z3.K(S, z3.BoolVal(False))))
    b_frozenset = b_set

    def b_object(self, a, kw):
        return self.newobj(Obj(Builtin('object')))

    def b_type(self, a, kw):
        return self.class_of(a[0])

    def b_sorted(self, a, kw):
        r = self.b_list(a[:1], {})
        self.list_sort(r, kw.get('key'), kw.get('reverse', False))
        return r

    def b_reversed(self, a, kw):
        src = self.to_list(a[0])
        r = self.newobj(Iter(self.list_reversed(src)))
        if self.single_sym(src) and mutable_shape(src.segs[0].shape):
            # iterating does not copy: the elements are those of the list
            src.segs[0].tags = src.segs[0].tags - {'shared'}
            r.view = src
        return r

    def b_range(self, a, kw):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if all(isinstance(x, int) for x in (lo, hi, st)):
            return self.newobj(mklist(list(range(lo, hi, st))))
        if st == 1:
            l, h = int_term(lo), int_term(hi)
            n = z3.simplify(h - l) if self.entails(h >= l) else z3.simplify(z3.If(h > l, h - l, z3.IntVal(0)))
            seg = SymSeg(self, n, TInt, lambda p, j: z3.simplify(l + j))
            seg.range_from = l
            for x in seg.axioms():
                self.assume(x)
            return self.newobj(PList([seg]))
        if st == -1:
            l, h = int_term(lo), int_term(hi)
            seg = SymSeg(self, z3.simplify(z3.If(l > h, l - h, z3.IntVal(0))), TInt, lambda p, j: z3.simplify(l - j))
            for x in seg.axioms():
                self.assume(x)
            return self.newobj(PList([seg]))
        raise Unsupported('range with a step')

    def b_enumerate(self, a, kw):
        lst = self.to_list(a[0])
        start = int_term(a[1] if len(a) > 1 else kw.get('start', 0))
        out = []
        off = start
        for s in lst.segs:
            if isinstance(s, El):
                out.append(El((wrap_int(off), s.v)))
                off = z3.simplify(off + 1)
            else:
                o = off

                def sel(p, j, s=s, o=o):
                    if mutable_shape(s.shape):
                        raise Unsupported('enumerate over symbolic objects')
                    return (o + j) if p == (('t', 0),) else s.sel(p[1:], j)
                out.append(SymSeg(self, s.n, TTuple(TInt, s.shape), sel))
                off = z3.simplify(off + s.n)
        r = self.newobj(Iter(self.newobj(PList(out))))
        if self.single_sym(lst) and not isinstance(a[0], Iter):
            r.enum = (lst, start)
        return r

    def b_zip(self, a, kw):
        ls = [self.to_list(x).concrete() for x in a]
        if any(l is None for l in ls):
            raise Unsupported('zip of symbolic lists')
        return self.newobj(Iter(self.newobj(mklist(list(zip(*ls))))))

    def b_map(self, a, kw):
        return self.newobj(Iter(self.map_list(lambda v: self.call(a[0], [v], {}), self.to_list(a[1]))))

    def b_filter(self, a, kw):
        f = a[0]
        return self.newobj(Iter(self.filter_list(lambda v: self.truth(v if f is None else self.call(f, [v], {})), self.to_list(a[1]))))

    def b_any(self, a, kw):
        return self.quant(self.to_list(a[0]), True)

    def b_all(self, a, kw):
        if is_str(a[0]):
            return True
        return self.quant(self.to_list(a[0]), False)

    def quant(self, lst, want):
        terms = []
        for s in lst.segs:
            if isinstance(s, El):
                t = self.truth(s.v)
                if t is want:
                    return want
                if t is (not want):
                    continue
                terms.append(bool_term(t) if want else z3.Not(bool_term(t)))
            else:
                if self.entails(s.n == 0):
                    continue
                tm = [m.name for m in self.measures if getattr(m, 'truth', False) and m.name in s.meas]
                if tm and s.shape.k == 'bool':
                    # a measure that counts the true ones
                    t = s.meas[tm[0]]
                    terms.append(t > 0 if want else z3.Not(t == s.n))
                    continue
                fm = [m.name for m in self.measures if getattr(m, 'falsy', None) == s.shape.k and m.name in s.meas]
                if fm:
                    # a measure that counts the false ones
                    t = s.meas[fm[0]]
                    terms.append(t < s.n if want else t > 0)
                    continue
                t = self.count_law(s, want)
                if t is not None:
                    terms.append(t > 0)
                    continue
                if self.choose(2) == 0:
                    j = z3.Int(fresh_name('any'))
                    self.assume(z3.And(j >= 0, j < s.n))
                    t = self.truth(s.get(j))
                    self.assume(bool_term(t) if want else z3.Not(bool_term(t)))
                    if self.check() == z3.unsat:
                        raise PathEnd()
                    return want
                self.add_fact(s, lambda j, v: z3.Not(bool_term(self.truth(v))) if want else bool_term(self.truth(v)))
                self.prop_fact(s, want)
        if not terms:
            return not want
        t = z3.Or(*terms)
        return wrap_bool(t if want else z3.Not(t))

    def count_law(self, s, want):
        """the number of true (false) elements of a mapped run, where a measure of its source counts them"""
        if s.mapped is None or s.shape.k != 'bool' or not s.mapped[0].meas:
            return None
        base = s.mapped[0]
        j = z3.Int(fresh_name('cj'))
        p = s.sel((), j)
        p = z3.simplify(p if want else z3.Not(p))
        if z3.is_false(p):
            return z3.IntVal(0)
        laws = self.filter_laws(base, j, p)
        if 'len' not in laws:
            return None
        k, m = laws['len']
        return base.meas[m] if k == 'is' else base.n - base.meas[m]

    def sum_law(self, s):
        """the sum of a mapped run, where a measure of its source is this sum"""
        if s.mapped is None or not s.mapped[0].meas:
            return None
        base = s.mapped[0]
        j = z3.Int(fresh_name('cj'))
        m = Measure('sum*', lambda sh: sh.k == 'int', lambda e, v: int_term(v))
        ms, self.measures = self.measures, list(self.measures) + [m]
        try:
            return self.map_laws(base, j, s.shape, {(): s.sel((), j)}).get('sum*')
        finally:
            self.measures = ms

    def prop_fact(self, s, want):
        """a fact about every element of a run made from another one is a fact about its elements"""
        src = s.mapped
        if src is not None:
            base, f = src
            self.add_fact(base, lambda j, v: (z3.Not if want else (lambda x: x))(s.sel((), j)) if s.shape.k == 'bool' else z3.BoolVal(True))

    def b_sum(self, a, kw):
        lst = self.to_list(a[0])
        tot = a[1] if len(a) > 1 else 0
        for s in lst.segs:
            if isinstance(s, El):
                tot = self.binop(ast.Add(), tot, s.v)
            else:
                if s.shape.k != 'int':
                    raise Unsupported('sum of a symbolic list')
                t = None
                for h in getattr(self, 'sum_hooks', []):
                    t = h(self, s)
                    if t is not None:
                        break
                if t is None:
                    t = self.sum_law(s)
                if t is None:
                    t = z3.Int(fresh_name('sum'))
                    self.inexact('sum of a symbolic list')
                tot = self.binop(ast.Add(), tot, SInt(t))
        return tot

    def b_min(self, a, kw):
        return self.minmax(a, kw, True)

    def b_max(self, a, kw):
        return self.minmax(a, kw, False)

    def minmax(self, a, kw, mn):
        if kw:
            raise Unsupported('min/max with a key')
        vals = list(a) if len(a) > 1 else self.to_list(a[0]).concrete()
        if vals is None:
            raise Unsupported('min/max of a symbolic list')
        if not vals:
            raise self.pyexc('ValueError', 'empty sequence')
        r = vals[0]
        for v in vals[1:]:
            if is_num(r) and is_num(v):
                if isinstance(r, (int, float)) and isinstance(v, (int, float)):
                    r = min(r, v) if mn else max(r, v)
                else:
                    x, y = num_term(r), num_term(v)
                    t = z3.If((y < x) if mn else (y > x), y, x)
                    r = wrap_real(t) if z3.is_real(t) else wrap_int(t)
            elif self.truthy(self.order(ast.Lt() if mn else ast.Gt(), v, r)):
                r = v
        return r

    def b_abs(self, a, kw):
        if isinstance(a[0], (int, float)):
            return abs(a[0])
        return wrap_int(z3.If(a[0].t >= 0, a[0].t, -a[0].t))

    def b_round(self, a, kw):
        if isinstance(a[0], (int, float)) and len(a) == 1:
            return round(a[0])
        raise Unsupported('round')

    def b_super(self, a, kw):
        return SuperProxy(a[0], a[1])

    def b_getattr(self, a, kw):
        o, n = a[0], a[1]
        if not isinstance(n, str):
            raise Unsupported('getattr with a symbolic name')
        try:
            return self.getattr(o, n)
        except PyRaise as ex:
            if len(a) > 2 and self.is_sub(ex.val.cls, Builtin('AttributeError')):
                return a[2]
            raise

    def b_hasattr(self, a, kw):
        try:
            self.getattr(a[0], a[1])
            return True
        except PyRaise as ex:
            if self.is_sub(ex.val.cls, Builtin('AttributeError')):
                return False
            raise

    def b_setattr(self, a, kw):
        self.setattr(a[0], a[1], a[2])

    def b_callable(self, a, kw):
        return isinstance(a[0], (PFunc, BoundM, PClass, Builtin, Ext, Native, BM)) or \
            (isinstance(a[0], Obj) and isinstance(a[0].cls, PClass) and a[0].cls.lookup('__call__') is not None)

    def b_iter(self, a, kw):
        v = a[0]
        if isinstance(v, Iter):
            return v
        if isinstance(v, Obj) and isinstance(v.cls, PClass):
            r = v.cls.lookup('__iter__')
            if r:
                return self.call(r[1], [v], {})
        return self.newobj(Iter(self.newobj(PList(self.copy_segs(self.to_list(v))))))

    def b_next(self, a, kw):
        v = a[0]
        if isinstance(v, Iter):
            try:
                x = self.list_get(v.lst, 0) if v.lst.segs else None
                if not v.lst.segs:
                    raise self.pyexc('StopIteration')
            except PyRaise as ex:
                if self.is_sub(ex.val.cls, Builtin('IndexError')):
                    if len(a) > 1:
                        return a[1]
                    raise self.pyexc('StopIteration')
                if len(a) > 1 and self.is_sub(ex.val.cls, Builtin('StopIteration')):
                    return a[1]
                raise
            self.wr(v)
            rest = self.list_slice(v.lst, slice(1, None, None))
            v.lst = rest
            return x
        if isinstance(v, Obj):
            if isinstance(v.cls, PClass):
                r = v.cls.lookup('__next__')
                if r:
                    return self.call(r[1], [v], {})
            elif isinstance(v.cls, Ext):
                return self.call_ext(v.cls.dotted + '.__next__', [v], {})
        raise self.pyexc('TypeError', 'not an iterator')

    def b_print(self, a, kw):
        return None

    def b_repr(self, a, kw):
        if isinstance(a[0], (int, str, float)) or a[0] is None:
            return repr(a[0])
        self.inexact('repr')
        return SStr([Atom(z3.Const(fresh_name('repr'), S), ['nonempty'])])

    def b_vars(self, a, kw):
        raise Unsupported('vars()')

    # ------------------------------------------------------------ methods of built-in types
    def call_bm(self, o, name, args, kw):
        if isinstance(o, Builtin):
            # a method through the type: str.strip(x)
            if o.name in ('str', 'list', 'dict') and args:
                return self.call_bm(args[0], name, args[1:], kw)
            if o.name == 'object' and name == '__init__':
                return None
            if o.name == 'dict' and name == 'fromkeys':
                raise Unsupported('dict.fromkeys')
            if o.name in self.exc_names and name == '__init__':
                return None
            raise Unsupported('%s.%s' % (o.name, name))
        if is_str(o):
            return self.str_method(o, name, args, kw)
        if isinstance(o, PList):
            return self.list_method(o, name, args, kw)
        if isinstance(o, PDict):
            return self.dict_method(o, name, args, kw)
        if isinstance(o, SMap):
            return self.smap_method(o, name, args, kw)
        if isinstance(o, PSet):
            return self.set_method(o, name, args, kw)
        if isinstance(o, tuple):
            return self.list_method(self.mk(list(o), 'tuple'), name, args, kw)
        if isinstance(o, Iter):
            if name == '__iter__':
                return o
            if name in ('__next__', 'next'):
                return self.b_next([o], {})
        if isinstance(o, Regex):
            h = self.models.get('re.Pattern.' + name)
            if h:
                self.used_models.add('re.Pattern.' + name)
                return h(self, [o] + list(args), kw)
        raise Unsupported('%s of %r' % (name, o))

    def str_method(self, s, name, args, kw):
        if isinstance(s, str) and all(isinstance(a, (str, int)) or a is None for a in args) and not kw and \
                name in ('upper', 'lower', 'title', 'isdigit', 'find', 'rfind', 'index', 'count', 'replace', 'rsplit', 'splitlines', 'encode', 'decode',
                         'partition', 'rpartition', 'isspace', 'zfill', 'rjust', 'ljust', 'isalnum', 'isalpha', 'rindex', 'casefold'):
            if name in ('encode', 'decode'):
                return s
            r = getattr(s, name)(*args)
            return self.mk(r) if isinstance(r, list) else r
        if name in ('encode', 'decode'):
            self.used_models.add('(str.encode/decode: the same text)')
            return s
        if name == 'startswith':
            if isinstance(args[0], tuple):
                return self.disj([strs.startswith(self, s, x) for x in args[0]])
            return strs.startswith(self, s, args[0])
        if name == 'endswith':
            if isinstance(args[0], tuple):
                return self.disj([strs.endswith(self, s, x) for x in args[0]])
            return strs.endswith(self, s, args[0])
        if name in ('strip', 'lstrip', 'rstrip'):
            return strs.strip(self, s, args[0] if args else None, name != 'rstrip', name != 'lstrip')
        if name == 'split':
            sep = args[0] if args else kw.get('sep')
            mx = args[1] if len(args) > 1 else kw.get('maxsplit')
            if mx is not None and not isinstance(s, str):
                return self.split_max(s, sep, mx)
            return self.newobj(PList(strs.split(self, s, sep, mx)))
        if name == 'rsplit':
            return self.rsplit(s, args)
        if name == 'join':
            lst = self.to_list(args[0])
            if not isinstance(s, str):
                raise Unsupported('join with a symbolic separator')
            for e in lst.segs:
                if isinstance(e, El) and not is_str(e.v):
                    raise self.pyexc('TypeError', 'sequence item: expected str instance')
                if isinstance(e, SymSeg) and e.shape.k not in ('str', 'none'):
                    raise self.pyexc('TypeError', 'sequence item: expected str instance')
            return strs.join(self, s, self.newobj(PList([e for e in lst.segs if isinstance(e, El) or e.shape.k == 'str'])))
        if name == 'format':
            return strs.brace(self, s, args, kw)
        if name in ('replace', 'lower', 'upper'):
            h = self.models.get('str.' + name)
            if h:
                return h(self, [s] + list(args), kw)
            if name == 'replace' and isinstance(args[0], str) and len(args[0]) == 1 and strs.contains(self, s, args[0]) is False:
                return s
            if name == 'replace' and len(args) == 2:
                t = uf('replace_all', S, S, S, S)(str_term(s), str_term(args[0]), str_term(args[1]))
            else:
                t = uf('str_' + name, S, S)(str_term(s))
            self.inexact('str.' + name)
            return SStr([Atom(t)])
        if name == 'find':
            self.inexact('str.find')
            return wrap_int(z3.IndexOf(str_term(s), str_term(args[0]), 0))
        if name == 'isdigit':
            self.inexact('str.isdigit')
            return wrap_bool(uf('isdigit', S, B)(str_term(s)))
        if name == '__eq__':
            return self.eq(s, args[0])
        h = self.models.get('str.' + name)
        if h:
            return h(self, [s] + list(args), kw)
        raise Unsupported('str.%s of a symbolic string' % name)

    def split_max(self, s, sep, mx):
        """s.split(sep, mx): cut at the first mx separators"""
        if sep is None and isinstance(mx, int) and 0 < mx < 4:
            # fields separated by white space: as many as the text has, each a function of it
            t = str_term(s)
            nf = uf('ws_fields', S, I)(t)
            self.assume(nf >= 0)
            k = 0
            while k <= mx and self.decide(nf > k):
                k += 1
            out = []
            for i in range(k):
                tags = ['nonempty']
                out.append(SStr([Atom(uf('ws_field%d' % i if i < mx else 'ws_rest%d' % i, S, S)(t), tags + (['nows', 'stripped', 'no:\t', 'no:\n'] if i < mx else []))]))
            return self.mk(out)
        if not isinstance(mx, int) or not isinstance(sep, str):
            raise Unsupported('split')
        if mx == 0:
            return self.mk([s])
        if mx == 1 and len(sep) == 1:
            # find the first separator in the rope
            pre = []
            parts = list(str_parts(s))
            while parts:
                p = parts[0]
                if isinstance(p, str):
                    if sep in p:
                        i = p.index(sep)
                        return self.mk([mkstr(pre + [p[:i]]), mkstr([p[i + 1:]] + parts[1:])])
                    pre.append(parts.pop(0))
                elif isinstance(p, Atom) and ('no:' + sep) in p.tags:
                    pre.append(parts.pop(0))
                else:
                    break
            if not parts:
                return self.mk([s])
            rest = mkstr(parts)
            t = str_term(rest)
            if not self.decide(z3.Contains(t, z3.StringVal(zesc(sep)))):
                return self.mk([s])
            a, b = z3.Const(fresh_name('cut'), S), z3.Const(fresh_name('cut'), S)
            self.assume(t == z3.Concat(a, z3.StringVal(zesc(sep)), b))
            self.assume(z3.Not(z3.Contains(a, z3.StringVal(zesc(sep)))))
            tags = set()
            if len(parts) == 1 and isinstance(parts[0], Atom):
                tags = set(x for x in parts[0].tags if x.startswith('no:'))
            return self.mk([mkstr(pre + [Atom(a, tags | {'no:' + sep})]), SStr([Atom(b, tags)])])
        raise Unsupported('split with a limit')

    def rsplit(self, s, args):
        sep = args[0] if args else None
        if isinstance(s, SStr) and isinstance(sep, str) and len(sep) == 1 and len(args) == 2 and args[1] == 1:
            parts = list(s.parts)
            post = []
            while parts:
                p = parts[-1]
                if isinstance(p, str):
                    if sep in p:
                        i = p.rindex(sep)
                        return self.mk([mkstr(parts[:-1] + [p[:i]]), mkstr([p[i + 1:]] + post)])
                    post.insert(0, parts.pop())
                elif isinstance(p, Atom) and ('no:' + sep) in p.tags:
                    post.insert(0, parts.pop())
                else:
                    break
            if not parts:
                return self.mk([s])
            t = str_term(mkstr(parts))
            if not self.decide(z3.Contains(t, z3.StringVal(zesc(sep)))):
                return self.mk([s])
            # functions of the text, so that equal texts give equal pieces
            nm = '%x' % ord(sep)
            a, b = uf('rcut%s_a' % nm, S, S)(t), uf('rcut%s_b' % nm, S, S)(t)
            self.assume(t == z3.Concat(a, z3.StringVal(zesc(sep)), b))
            self.assume(z3.Not(z3.Contains(b, z3.StringVal(zesc(sep)))))
            return self.mk([SStr([Atom(a)]), mkstr([Atom(b, ['no:' + sep])] + post)])
        raise Unsupported('rsplit')

    def list_method(self, o, name, args, kw):
        if name == 'append':
            return self.list_append(o, args[0])
        if name == 'extend':
            return self.list_extend(o, args[0])
        if name == 'pop':
            return self.list_pop(o, *args)
        if name == 'insert':
            return self.list_insert(o, *args)
        if name == 'remove':
            return self.list_remove(o, args[0])
        if name == 'index':
            return self.list_index(o, args[0])
        if name == 'sort':
            return self.list_sort(o, kw.get('key'), kw.get('reverse', False))
        if name == 'reverse':
            self.list_wr(o)
            o.segs[:] = self.list_reversed(o).segs
            return None
        if name == 'copy':
            return self.newobj(PList(self.copy_segs(o)))
        if name == 'clear':
            self.list_wr(o)
            del o.segs[:]
            return None
        if name == 'count':
            c = o.concrete()
            if c is None:
                raise Unsupported('list.count')
            t = z3.IntVal(0)
            for x in c:
                t = t + int_term(wrap_bool(bool_term(self.truth(self.eq(x, args[0])))))
            return wrap_int(t)
        if name == '__iter__':
            return self.b_iter([o], {})
        if name == '__len__':
            return self.length(o)
        if name == '__contains__':
            return self.contains(o, args[0])
        raise Unsupported('list.' + name)

    def dict_method(self, o, name, args, kw):
        if name == 'get':
            return self.dict_get(o, args[0], False, args[1] if len(args) > 1 else None)
        if name in ('keys', 'iterkeys'):
            return self.mk(list(o.d))
        if name in ('values', 'itervalues'):
            return self.mk(list(o.d.values()))
        if name in ('items', 'iteritems'):
            return self.mk([(k, v) for k, v in o.d.items()])
        if name == 'copy':
            r = self.newobj(PDict(dict(o.d)))
            r.origin = None
            return r
        if name == 'setdefault':
            k = args[0]
            if not isinstance(k, (str, int, tuple)):
                raise Unsupported('setdefault with a symbolic key')
            if k not in o.d:
                self.setitem(o, k, args[1] if len(args) > 1 else None)
            return o.d[k]
        if name == 'update':
            if args:
                if isinstance(args[0], PDict):
                    for k, v in args[0].d.items():
                        self.setitem(o, k, v)
                else:
                    for e in self.to_list(args[0]).concrete() or self.unsup('dict.update'):
                        k, v = self.unpack(e, 2)
                        self.setitem(o, k, v)
            for k, v in kw.items():
                self.setitem(o, k, v)
            return None
        if name == 'pop':
            k = args[0]
            if not isinstance(k, (str, int, tuple)):
                raise Unsupported('pop with a symbolic key')
            if k not in o.d:
                if len(args) > 1:
                    return args[1]
                raise self.pyexc('KeyError', k)
            v = o.d[k]
            self.delitem(o, k)
            return v
        if name == 'clear':
            self.mutated(o)
            for k in list(o.d):
                self.wr(o, k)
            o.d.clear()
            return None
        if name in ('has_key', '__contains__'):
            return self.contains(o, args[0])
        raise Unsupported('dict.' + name)

    def unsup(self, what):
        raise Unsupported(what)

    def smap_method(self, o, name, args, kw):
        if name == 'get':
            kt = str_term(args[0])
            if self.decide(wrap_bool(z3.Select(o.has, kt))):
                return self.smap_val(o, kt)
            return args[1] if len(args) > 1 else None
        if name in ('keys', 'iterkeys'):
            return self.to_list(o)
        if name in ('items', 'iteritems'):
            ks = self.keys_seg(o)
            val = dict(o.val)
            seg = SymSeg(self, ks.n, TTuple(ks.shape, o.vshape),
                         lambda p, j: ks.sel((), j) if p[0] == ('t', 0) else z3.Select(val[p[1:]], ks.sel((), j)))
            seg.facts = (lambda j, v: z3.And(z3.Select(ks.keysof[0], str_term(v[0])), ks.keysof[1](str_term(v[0])) == j),)
            seg.itemsof = (o.has, val, ks)
            for x in self.measures:
                if x.name in seg.meas and getattr(x, 'witness', None):
                    w = x.witness(self)
                    it = (SStr([Atom(w, o.ktags)]), self.smap_val(o, w))
                    self.assume(seg.meas[x.name] == z3.If(z3.Select(o.has, w), x.elem(self, it), z3.IntVal(0)))
            return self.newobj(PList([seg]))
        if name in ('values', 'itervalues'):
            ks = self.keys_seg(o)
            val = dict(o.val)
            return self.newobj(PList([SymSeg(self, ks.n, o.vshape, lambda p, j: z3.Select(val[p], ks.sel((), j)))]))
        if name == 'copy':
            return self.newobj(o.clone())
        if name == 'pop':
            kt = str_term(args[0])
            if self.decide(wrap_bool(z3.Select(o.has, kt))):
                v = self.smap_val(o, kt)
                self.delitem(o, args[0])
                return v
            if len(args) > 1:
                return args[1]
            raise self.pyexc('KeyError', args[0])
        if name == 'clear':
            self.wr(o)
            o.has = z3.K(S, z3.BoolVal(False))
            return None
        if name == 'setdefault':
            kt = str_term(args[0])
            if not self.decide(wrap_bool(z3.Select(o.has, kt))):
                self.setitem(o, args[0], args[1])
            return self.smap_val(o, kt)
        raise Unsupported('dict.%s of a symbolic map' % name)

    def set_method(self, o, name, args, kw):
        if name == 'add':
            if not is_str(args[0]):
                raise Unsupported('set of %r' % (args[0],))
            self.wr(o)
            o.has = z3.Store(o.has, str_term(args[0]), z3.BoolVal(True))
            return None
        if name in ('discard', 'remove'):
            if not is_str(args[0]):
                if name == 'discard':
                    return None
                raise self.pyexc('KeyError', args[0])
            if name == 'remove' and not self.decide(wrap_bool(z3.Select(o.has, str_term(args[0])))):
                raise self.pyexc('KeyError', args[0])
            self.wr(o)
            o.has = z3.Store(o.has, str_term(args[0]), z3.BoolVal(False))
            return None
        if name == 'clear':
            self.wr(o)
            o.has = z3.K(S, z3.BoolVal(False))
            return None
        if name == 'update':
            self.wr(o)
            for a in args:
                b = self.to_set(a)
                x = z3.Const(fresh_name('k'), S)
                h = o.has
                o.has = z3.Lambda([x], z3.Or(z3.Select(h, x), z3.Select(b.has, x)))
            return None
        if name == 'copy':
            return self.newobj(PSet(o.has, o.tags))
        if name in ('union', 'difference', 'intersection'):
            return self.binop({'union': ast.BitOr, 'difference': ast.Sub, 'intersection': ast.BitAnd}[name](), o, self.to_set(args[0]))
        raise Unsupported('set.' + name)


def seg_len(segs):
    t = z3.IntVal(0)
    for s in segs:
        t = t + (1 if isinstance(s, El) else s.n)
    return t


def toreal(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def default_of(srt):
    if srt == I:
        return z3.IntVal(0)
    if srt == S:
        return z3.StringVal('')
    if srt == B:
        return z3.BoolVal(False)
    if srt == R:
        return z3.RealVal(0)
    return z3.FreshConst(srt)
