"""pyvc core: symbolic values, shapes, heap objects, paths, and the solver interface.

A path is one run of the interpreter under a sequence of recorded decisions; explore() re-runs with every feasible alternative.
"""
import itertools
import time
import z3

z3.set_param('smt.random_seed', 7)
z3.set_param('sat.random_seed', 7)

class Counter(object):
    """names and object numbers; deterministic along a path, so that a replayed prefix gives the same names"""
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n


_ctr = Counter()


def fresh_name(base):
    return '%s!%d' % (base, next(_ctr))


class Unsupported(Exception):
    """the construct is outside the verified subset: nothing is decided"""


class PathEnd(Exception):
    """this path needs no further exploration"""


class PyRaise(Exception):
    """a Python exception raised by the program under verification"""
    def __init__(self, val):
        self.val = val

    def __str__(self):
        return 'PyRaise(%r)' % (self.val,)


class RetSig(Exception):
    def __init__(self, v):
        self.v = v


class BrkSig(Exception):
    pass


class ContSig(Exception):
    pass


# ---------------------------------------------------------------- scalars
class SInt(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SReal(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SReal(%s)' % self.t


class SBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class Atom(object):
    """an opaque piece of a string: a z3 String term with tags, facts about it that are preconditions or were derived:
    'nonempty', 'stripped' (no leading or trailing whitespace), 'no:X' (does not contain X), 'nohash' (does not begin with #)"""
    __slots__ = ('t', 'tags')

    def __init__(self, t, tags=()):
        self.t = t
        self.tags = frozenset(tags)

    def __repr__(self):
        return 'Atom(%s)' % self.t


class Joined(object):
    """sep.join(seg) for a symbolic run of strings"""
    __slots__ = ('sep', 'seg')

    def __init__(self, sep, seg):
        self.sep = sep
        self.seg = seg


class SStr(object):
    """a rope: literal strings, atoms and joins"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    @property
    def t(self):
        ts = []
        for p in self.parts:
            if isinstance(p, str):
                ts.append(z3.StringVal(zesc(p)))
            elif isinstance(p, Atom):
                ts.append(p.t)
            else:
                ts.append(joined_term(p))
        if not ts:
            return z3.StringVal('')
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def __repr__(self):
        return 'SStr(%s)' % '+'.join(map(repr, self.parts))


def joined_term(p):
    # an uninterpreted string for a join (only equality with itself is known)
    return z3.String('join_%s_%d' % (''.join('%x' % ord(c) for c in p.sep), p.seg.uid))


def zesc(s):
    # z3 string literals take \u{..} escapes
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c != '\\':
            out.append(c)
        else:
            out.append('\\u{%x}' % o)
    return ''.join(out)


def mkstr(parts):
    s = SStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def str_parts(v):
    if isinstance(v, str):
        return (v,) if v else ()
    return v.parts


def str_term(v):
    if isinstance(v, str):
        return z3.StringVal(zesc(v))
    return v.t


def int_term(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('int term of %r' % (v,))


def num_term(v):
    if isinstance(v, float):
        from fractions import Fraction
        f = Fraction(v)
        return z3.RatVal(f.numerator, f.denominator)
    if isinstance(v, SReal):
        return v.t
    return int_term(v)


def bool_term(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.t
    raise Unsupported('bool term of %r' % (v,))


def lit(t):
    """concrete Python value of a z3 term, or None"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def wrap_int(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def wrap_real(t):
    return SReal(z3.simplify(t))


def wrap_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def wrap_str(t, tags=()):
    return SStr([Atom(t, tags)])


def is_int(v):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float, SInt, SReal, SBool))


def is_str(v):
    return isinstance(v, (str, SStr))


def is_bool(v):
    return isinstance(v, (bool, SBool))


# ---------------------------------------------------------------- heap
class HeapObj(object):
    _slots = ()

    def __init__(self):
        self.uid = next(_ctr)

    def children(self):
        return ()


class PList(HeapObj):
    """segs: concrete element values (wrapped in El) and SymSegs, in order"""
    def __init__(self, segs=(), frozen=False):
        HeapObj.__init__(self)
        self.segs = list(segs)
        self.kind = 'list'

    def concrete(self):
        if all(isinstance(s, El) for s in self.segs):
            return [s.v for s in self.segs]
        return None

    def __repr__(self):
        return 'PList(%s)' % (self.segs,)


class El(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


def mklist(vals):
    return PList([El(v) for v in vals])


class PDict(HeapObj):
    """concrete keys, insertion order"""
    def __init__(self, items=()):
        HeapObj.__init__(self)
        self.d = dict(items)

    def __repr__(self):
        return 'PDict(%s)' % (self.d,)


class SMap(HeapObj):
    """a map with symbolic string keys: has/val are functions of a key term; keys (an enumeration) is made on demand.
    vshape: shape of the values"""
    def __init__(self, has, val, vshape, ktags=(), ordr=None, nxt=None):
        HeapObj.__init__(self)
        # insertion order: the keys in increasing ordr; a key added gets nxt, which is above those of all keys there are
        self.ordr = ordr if ordr is not None else z3.Const(fresh_name('ord'), z3.ArraySort(z3.StringSort(), z3.IntSort()))
        self.nxt = nxt if nxt is not None else z3.Int(fresh_name('nxt'))
        self.has = has         # z3 Array String Bool
        self.val = val         # dict leaf path -> Array String leafsort
        self.vshape = vshape
        self.ktags = frozenset(ktags)

    def clone(self):
        return SMap(self.has, dict(self.val), self.vshape, self.ktags, self.ordr, self.nxt)

    def __repr__(self):
        return 'SMap#%d' % self.uid


class PSet(HeapObj):
    """a set of strings as Array String Bool"""
    def __init__(self, has, tags=()):
        HeapObj.__init__(self)
        self.has = has
        self.tags = frozenset(tags)


class Obj(HeapObj):
    def __init__(self, cls, attrs=None):
        HeapObj.__init__(self)
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.origin = None

    def __repr__(self):
        return '<%s#%d>' % (getattr(self.cls, 'name', self.cls), self.uid)


class Iter(HeapObj):
    """an iterator over a list: the elements not yet delivered"""
    def __init__(self, lst):
        HeapObj.__init__(self)
        self.lst = lst


# ---------------------------------------------------------------- shapes
class Sh(object):
    """kinds: int bool real str none const opt list rec(obj/dict) tuple opaque"""
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Sh(%s)' % ', '.join('%s=%r' % i for i in self.__dict__.items())


TInt = Sh('int')
TBool = Sh('bool')
TReal = Sh('real')
TNone = Sh('none')


def TStr(*tags):
    return Sh('str', tags=frozenset(tags))


def TList(elem, tags=()):
    return Sh('list', elem=elem, tags=frozenset(tags))


def TRec(fields, cls=None):
    return Sh('rec', fields=dict(fields), cls=cls)


def TTuple(*els):
    return Sh('tuple', els=list(els))


def TOpt(*alts):
    return Sh('opt', alts=list(alts))


def TConst(v):
    return Sh('const', v=v)


def mutable_shape(s):
    return s.k in ('list', 'rec') or (s.k == 'opt' and any(mutable_shape(a) for a in s.alts))


class Measure(object):
    """a monoid homomorphism from lists to the integers: the sum of elem() over the elements.
    unit: elem is 0 or 1;  nonneg: elem >= 0"""
    def __init__(self, name, applies, elem, unit=False, nonneg=True):
        self.name, self.applies, self.elem, self.unit, self.nonneg = name, applies, elem, unit, nonneg or unit


class SymSeg(object):
    """a symbolic run of n elements of one shape; sel(leafpath, j) gives the leaf term of element j"""
    def __init__(self, eng, n, shape, sel, meas=None, tags=(), what='seg'):
        self.uid = next(_ctr)
        self.eng = eng
        self.n = n
        self.shape = shape
        self.sel = sel
        self.tags = frozenset(tags)
        self.meas = {}
        self.pre = {}
        self.cache = {}
        self.facts = ()
        self.rev_of = None
        self.mapped = None
        self.keysof = None
        eng.allsegs.append(self)
        for m in eng.measures:
            if m.applies(shape):
                if meas is not None and m.name in meas:
                    self.meas[m.name] = meas[m.name]
                else:
                    self.meas[m.name] = z3.Int(fresh_name('M_%s' % m.name))

    def axioms(self):
        out = [self.n >= 0]
        for m in self.eng.measures:
            if m.name in self.meas:
                t = self.meas[m.name]
                out.append(z3.Implies(self.n == 0, t == 0))
                if m.nonneg:
                    out.append(t >= 0)
                if m.unit:
                    out.append(t <= self.n)
        return out

    def prefix(self, m):
        if m not in self.pre:
            f = z3.Function(fresh_name('P_%s' % m), z3.IntSort(), z3.IntSort())
            self.pre[m] = f
            self.eng.assume(f(z3.IntVal(0)) == 0)
            if m in self.meas:
                self.eng.assume(f(self.n) == self.meas[m])
        return self.pre[m]

    def get(self, j, plist=None):
        j = z3.simplify(j if not isinstance(j, int) else z3.IntVal(j))
        key = j.get_id()
        if key in self.cache:
            return self.cache[key][0]
        v = self.eng.build(self.shape, lambda p: self.sel(p, j))
        self.cache[key] = (v, j)
        if isinstance(v, (Obj, PDict)):
            v.origin = (plist, self, j)
        for f in self.facts:
            self.eng.assume(z3.Implies(z3.And(j >= 0, j < self.n), f(j, v)))
        self.eng.on_access(self, j, v)
        return v

    def __repr__(self):
        return 'Seg(n=%s)' % self.n


class Poison(object):
    def __init__(self, name):
        self.name = name
