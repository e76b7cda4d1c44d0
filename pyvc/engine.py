"""pyvc engine: path exploration, obligations, symbolic data structures."""
import time
from core import *
from core import _ctr as core_ctr
import os
SLOW = os.environ.get('PYVC_SLOW')


class Path(object):
    def __init__(self, eng, prefix, base):
        self.eng = eng
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.timeout)
        self.pc = []
        self.decs = []
        self.exact = True
        self.why = ()
        for f in base:
            self.add(f)

    def add(self, f):
        self.pc.append(f)
        self.solver.add(f)


class Obligation(object):
    def __init__(self, name):
        self.name = name
        self.ok = 0
        self.bad = []      # (status, detail, model, exact)


class Engine(object):
    def __init__(self, program, seconds=200, timeout=4000):
        self.program = program
        self.timeout = timeout
        self.measures = []
        self.hooks = []           # on_access(eng, seg, j, value)
        self.member_hooks = []    # (eng, seg, value) -> z3 Bool or None
        self.cands = []           # (eng, state) -> [(label, fn(state)->z3 Bool)]
        self.path = None
        self.obls = {}
        self.models = {}
        self.summaries = {}
        self.used_models = set()
        self.used_summaries = set()
        self.functions = {}
        self.stack = []
        self.reg = {}
        self.wlogs = []
        self.deadline = time.time() + seconds
        self.solver_s = 0.0
        self.queries = 0
        self.npaths = 0
        self.quiet = 0            # >0: obligations are not recorded (dry runs)
        self.loops_inferred = {}
        self.lits = {}
        self.maxpaths = 3000
        self.allsegs = []
        self.target = None
        self.target_depth = 0
        self.loopcache = [{}]
        self.normal = {}
        self.gaveup = False
        self.inexacts = set()
        self.loopkey = {}
        self.chain, self.hints, self.shaping, self.nomerge = [], {}, 0, set()
        self.J = z3.Int('J*')          # an arbitrary position
        self.K = z3.String('K*')       # an arbitrary key

    # ------------------------------------------------------------ solver
    def check(self, *extra):
        if time.time() > self.deadline:
            raise Unsupported('time limit of the verifier reached')
        t = time.time()
        r = self.path.solver.check(*extra)
        self.solver_s += time.time() - t
        if SLOW and time.time() - t > float(SLOW):
            import traceback
            fr = self.stack[-1] if self.stack else None
            print('slow query %.1fs %s extra=%s in %s' % (time.time() - t, r, str(extra)[:300], getattr(getattr(fr, 'func', None), 'name', None)),
                  [f.name for f in traceback.extract_stack()[-8:-1]])
        self.queries += 1
        return r

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if isinstance(c, SBool):
            c = c.t
        if z3.is_true(c):
            return
        self.path.add(c)

    def inexact(self, why):
        self.path.exact = False
        if why not in self.path.why:
            self.path.why += (why,)
        if not why.startswith('loop at '):
            self.inexacts.add(why)

    def feasible(self, c):
        return self.check(c) != z3.unsat

    def entails(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            c = z3.BoolVal(False)
        return self.check(z3.Not(c)) == z3.unsat

    def decide(self, c):
        """branch on a condition (python bool, SBool or z3 Bool); returns a python bool"""
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.t
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        p = self.path
        k = len(p.trace)
        if k < len(p.prefix):
            d = p.prefix[k]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                d = True
                p.alts.append(p.trace + [False])
            elif ft:
                d = True
            else:
                d = False
        p.trace.append(d)
        p.decs.append(c if d else z3.Not(c))
        p.add(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """nondeterministic choice of 0..n-1"""
        if n == 1:
            return 0
        p = self.path
        k = len(p.trace)
        if k < len(p.prefix):
            d = p.prefix[k]
        else:
            d = 0
            for i in range(1, n):
                p.alts.append(p.trace + [i])
        p.trace.append(d)
        return d

    def explore(self, fn, base=()):
        stack = [[]]
        n = 0
        c0 = core_ctr.n
        reg0, segs0, ex0 = dict(self.reg), list(self.allsegs), (self.path.exact, self.path.why) if self.path is not None else (True, ())
        self.loopcache.append({})
        while stack:
            prefix = stack.pop()
            core_ctr.n = c0
            p = Path(self, prefix, base)
            p.exact, p.why = ex0
            self.reg, self.allsegs = dict(reg0), list(segs0)
            old = self.path
            self.path = p
            try:
                fn()
            except PathEnd:
                pass
            finally:
                self.path = old
            stack.extend(p.alts)
            n += 1
            self.npaths += 1
            if n > self.maxpaths:
                raise Unsupported('more than %d paths' % self.maxpaths)
        core_ctr.n = c0
        self.loopcache.pop()
        return n

    # ------------------------------------------------------------ obligations
    def oblige(self, name, c, detail=''):
        if self.quiet:
            return
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        o = self.obls.setdefault(name, Obligation(name))
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            o.ok += 1
        elif r == z3.sat:
            m = self.path.solver.model()
            o.bad.append(('sat', detail, m, self.path.exact, self.path.why))
        else:
            o.bad.append(('unknown', detail + ': ' + self.path.solver.reason_unknown(), None, False, None))
        if z3.is_false(z3.simplify(c)):
            raise PathEnd()
        self.assume(c)

    def fail(self, name, detail=''):
        self.oblige(name, z3.BoolVal(False), detail)

    # ------------------------------------------------------------ shapes and building
    def leafsort(self, k):
        return {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort(), 'str': z3.StringSort()}[k]

    def leaves(self, shape):
        """[(path, sort)]"""
        k = shape.k
        if k in ('int', 'bool', 'real', 'str'):
            return [((), self.leafsort(k))]
        if k in ('none', 'const', 'opaque'):
            return []
        if k == 'opt':
            out = [(('tag',), z3.IntSort())]
            for i, a in enumerate(shape.alts):
                out += [((('alt', i),) + p, s) for p, s in self.leaves(a)]
            return out
        if k == 'list':
            if shape.elem is None:
                return []
            out = [(('n',), z3.IntSort())]
            for m in self.measures:
                if m.applies(shape.elem):
                    out.append((('m', m.name), z3.IntSort()))
            out += [(('e',) + p, z3.ArraySort(z3.IntSort(), s)) for p, s in self.leaves(shape.elem)]
            return out
        if k == 'tuple':
            return [((('t', i),) + p, s) for i, a in enumerate(shape.els) for p, s in self.leaves(a)]
        if k == 'rec':
            return [((('f', f),) + p, s) for f, a in shape.fields.items() for p, s in self.leaves(a)]
        if k == 'map':
            return [(('has',), z3.ArraySort(z3.StringSort(), z3.BoolSort())), (('ord',), z3.ArraySort(z3.StringSort(), z3.IntSort())),
                    (('nxt',), z3.IntSort())] + \
                [(('v',) + p, z3.ArraySort(z3.StringSort(), s)) for p, s in self.leaves(shape.val)]
        if k == 'set':
            return [(('has',), z3.ArraySort(z3.StringSort(), z3.BoolSort()))]
        raise Unsupported('leaves of %r' % shape)

    def build(self, shape, sel):
        k = shape.k
        if k == 'int':
            return wrap_int(sel(()))
        if k == 'bool':
            return wrap_bool(sel(()))
        if k == 'real':
            return SReal(sel(()))
        if k == 'str':
            t = sel(())
            if 'nonempty' in shape.tags:
                self.assume(z3.Length(t) > 0)
            return SStr([Atom(t, shape.tags)])
        if k == 'none':
            return None
        if k in ('const', 'opaque'):
            return shape.v
        if k == 'opt':
            tag = sel(('tag',))
            for i, a in enumerate(shape.alts[:-1]):
                if self.decide(tag == i):
                    return self.build(a, lambda p, i=i: sel((('alt', i),) + p))
            i = len(shape.alts) - 1
            return self.build(shape.alts[i], lambda p: sel((('alt', i),) + p))
        if k == 'list':
            if shape.elem is None:
                return self.newobj(PList())
            meas = {}
            for m in self.measures:
                if m.applies(shape.elem):
                    meas[m.name] = sel(('m', m.name))
            seg = SymSeg(self, sel(('n',)), shape.elem, lambda p, j: z3.Select(sel(('e',) + p), j), meas, shape.tags)
            for a in seg.axioms():
                self.assume(a)
            return self.newobj(PList([seg]))
        if k == 'tuple':
            return tuple(self.build(a, lambda p, i=i: sel((('t', i),) + p)) for i, a in enumerate(shape.els))
        if k == 'rec':
            items = dict((f, self.build(a, lambda p, f=f: sel((('f', f),) + p))) for f, a in shape.fields.items())
            o = PDict(items) if shape.cls is None else Obj(shape.cls, items)
            o.origin = None
            return self.newobj(o)
        if k == 'map':
            m = SMap(sel(('has',)), dict((p, sel(('v',) + p)) for p, s in self.leaves(shape.val)), shape.val, shape.ktags, sel(('ord',)), sel(('nxt',)))
            self.map_axioms(m)
            return self.newobj(m)
        if k == 'set':
            return self.newobj(PSet(sel(('has',)), shape.tags))
        raise Unsupported('build %r' % shape)

    def map_axioms(self, m):
        self.assume(z3.Implies(z3.Select(m.has, self.K), z3.Select(m.ordr, self.K) < m.nxt))

    def fresh(self, shape, base='v'):
        d = {}
        if shape.k == 'opt':
            i = self.choose(len(shape.alts))
            return self.fresh(shape.alts[i], base)
        if shape.k == 'tuple':
            return tuple(self.fresh(a, base) for a in shape.els)
        if shape.k == 'rec':
            items = dict((f, self.fresh(a, base + '.' + str(f))) for f, a in shape.fields.items())
            o = PDict(items) if shape.cls is None else Obj(shape.cls, items)
            o.origin = None
            return self.newobj(o)
        for p, s in self.leaves(shape):
            d[p] = z3.Const(fresh_name(base), s)
        return self.build(shape, lambda p: d[p])

    def fresh_seg(self, elem, base='seg', tags=()):
        arrs = dict((p, z3.Const(fresh_name(base), z3.ArraySort(z3.IntSort(), s))) for p, s in self.leaves(elem))
        seg = SymSeg(self, z3.Int(fresh_name(base + '.n')), elem, lambda p, j: z3.Select(arrs[p], j), None, tags)
        for a in seg.axioms():
            self.assume(a)
        return seg

    def newobj(self, o):
        self.reg[o.uid] = o
        return o

    def on_access(self, seg, j, v):
        for h in self.hooks:
            h(self, seg, j, v)

    def shape_of(self, v, seen=()):
        if v is None:
            return TNone
        if isinstance(v, (bool, SBool)):
            return TBool
        if isinstance(v, (int, SInt)):
            return TInt
        if isinstance(v, (float, SReal)):
            return TReal
        if isinstance(v, str):
            return Sh('str', tags=self.lit_tags(v))
        if isinstance(v, SStr):
            return Sh('str', tags=self.rope_tags(v))
        if isinstance(v, tuple):
            return TTuple(*[self.shape_of(x, seen) for x in v])
        if isinstance(v, HeapObj):
            if v.uid in seen:
                raise Unsupported('cyclic structure in a loop')
            seen = seen + (v.uid,)
        if isinstance(v, PList):
            el = None
            tags = None
            for s in v.segs:
                sh = s.shape if isinstance(s, SymSeg) else self.shape_of(s.v, seen)
                tg = s.tags if isinstance(s, SymSeg) else frozenset()
                tags = tg if tags is None else tags & tg
                el = sh if el is None else self.join(el, sh)
            if len(v.segs) != 1:
                tags = frozenset(t for t in (tags or ()) if not str(t).startswith('order:'))
            return Sh('list', elem=el, tags=tags or frozenset())
        if isinstance(v, PDict):
            return Sh('rec', fields=dict((f, self.shape_of(x, seen)) for f, x in v.d.items()), cls=None)
        if isinstance(v, SMap):
            return Sh('map', val=v.vshape, ktags=v.ktags)
        if isinstance(v, PSet):
            return Sh('set', tags=v.tags)
        if isinstance(v, Obj):
            return Sh('rec', fields=dict((f, self.shape_of(x, seen)) for f, x in v.attrs.items()), cls=v.cls)
        return Sh('opaque', v=v)

    def lit_tags(self, s):
        return LitTags(s)

    def rope_tags(self, v):
        if len(v.parts) == 1 and isinstance(v.parts[0], Atom):
            return v.parts[0].tags
        out = set()
        if any((isinstance(p, str) and p) or (isinstance(p, Atom) and 'nonempty' in p.tags) for p in v.parts):
            out.add('nonempty')
        last = v.parts[-1] if v.parts else ''
        if (isinstance(last, str) and last.endswith('\n')) or (isinstance(last, Atom) and 'end:\n' in last.tags):
            out.add('end:\n')
        return frozenset(out)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a.k == 'list' and b.k == 'list':
            return Sh('list', elem=self.join(a.elem, b.elem), tags=a.tags & b.tags if a.elem is not None and b.elem is not None
                      else (a.tags if a.elem is not None else b.tags))
        if a.k == b.k:
            k = a.k
            if k in ('int', 'bool', 'real', 'none'):
                return a
            if k == 'str':
                return Sh('str', tags=tags_meet(a.tags, b.tags))
            if k == 'tuple' and len(a.els) == len(b.els):
                return TTuple(*[self.join(x, y) for x, y in zip(a.els, b.els)])
            if k == 'rec' and a.cls is b.cls and set(a.fields) == set(b.fields):
                return Sh('rec', fields=dict((f, self.join(a.fields[f], b.fields[f])) for f in a.fields), cls=a.cls)
            if k == 'map':
                return Sh('map', val=self.join(a.val, b.val), ktags=a.ktags & b.ktags)
            if k == 'set':
                return Sh('set', tags=a.tags & b.tags)
            if k in ('opaque', 'const') and a.v is b.v:
                return a
        alts = (a.alts if a.k == 'opt' else [a])
        for x in (b.alts if b.k == 'opt' else [b]):
            for i, y in enumerate(alts):
                if x.k == y.k and x.k not in ('opaque', 'const', 'rec'):
                    alts = alts[:i] + [self.join(x, y)] + alts[i + 1:]
                    break
                if x.k == y.k == 'rec' and x.cls is y.cls and set(x.fields) == set(y.fields):
                    alts = alts[:i] + [self.join(x, y)] + alts[i + 1:]
                    break
                if x.k == y.k and x.k in ('opaque', 'const') and x.v is y.v:
                    break
            else:
                alts = alts + [x]
        return Sh('opt', alts=alts) if len(alts) > 1 else alts[0]

    def shape_eq(self, a, b):
        return shape_key(a) == shape_key(b)

    def fix_shape(self, s):
        """a list of unknown element type becomes a list that stays empty"""
        if s.k == 'list' and s.elem is None:
            return Sh('list', elem=TNone, tags=frozenset(['empty']))
        return s

    # ------------------------------------------------------------ measures
    def measure(self, lst, name):
        """the measure of a list value as a z3 Int (None if undefined for its elements)"""
        m = [x for x in self.measures if x.name == name][0]
        tot = z3.IntVal(0)
        for s in lst.segs:
            if isinstance(s, SymSeg):
                if name not in s.meas:
                    if self.entails(s.n == 0):
                        continue
                    return None
                tot = tot + s.meas[name]
            else:
                e = m.elem(self, s.v)
                if e is None:
                    return None
                tot = tot + e
        return z3.simplify(tot)

    # ------------------------------------------------------------ writes
    def wr(self, obj, key=None):
        for w in self.wlogs:
            w.add((obj.uid, key))

    def mutated(self, obj):
        """called before an object built from a symbolic run is changed: give it its own place in the list"""
        org = getattr(obj, 'origin', None)
        if org is None:
            return
        plist, seg, j = org
        if plist is not None:
            self.wr(plist, 'elem')
        if plist is None or seg not in plist.segs or 'shared' in seg.tags:
            raise Unsupported('change of an element of a shared symbolic list')
        for (v, jj) in seg.cache.values():
            if v is not obj and not self.entails(jj != j):
                raise Unsupported('two names for one list element')
        self.split_at(plist, seg, j, obj)
        obj.origin = None

    def split_at(self, plist, seg, j, obj):
        pre, post = self.cut(seg, j, j + 1)
        for m in self.measures:
            if m.name in seg.meas:
                self.assume(seg.meas[m.name] == pre.meas[m.name] + post.meas[m.name] + m.elem(self, obj))
        i = plist.segs.index(seg)
        plist.segs[i:i + 1] = [pre, El(obj), post]

    def cut(self, seg, a, b):
        """the runs seg[:a] and seg[b:] (measures: fresh; the caller relates them)"""
        keep = frozenset(t for t in seg.tags)
        pre = SymSeg(self, z3.simplify(a), seg.shape, seg.sel, None, keep)
        bt = b
        post = SymSeg(self, z3.simplify(seg.n - b), seg.shape, lambda p, j: seg.sel(p, z3.simplify(j + bt)), None, keep)
        for f in seg.facts:
            pre.facts += (lambda j, v, f=f: f(j, v),)
            post.facts += (lambda j, v, f=f: f(z3.simplify(j + bt), v),)
        for x in (pre, post):
            for ax in x.axioms():
                self.assume(ax)
        return pre, post


class LitTags(frozenset):
    """tags of a literal: whatever is true of it"""
    def __new__(cls, s):
        t = set()
        if s:
            t.add('nonempty')
        if s.endswith('\n'):
            t.add('end:\n')
        if s == s.strip():
            t.add('stripped')
        for c in '\t\n\r/# ':
            if c not in s:
                t.add('no:' + c)
        if not s.startswith('#'):
            t.add('nohash')
        if not any(c.isspace() for c in s):
            t.add('nows')
        return frozenset.__new__(cls, t)


def tags_meet(a, b):
    return frozenset(a) & frozenset(b)


def shape_key(s):
    if s is None:
        return None
    k = s.k
    if k == 'str':
        return (k, tuple(sorted(map(str, s.tags))))
    if k == 'list':
        return (k, shape_key(s.elem), tuple(sorted(map(str, s.tags))))
    if k == 'rec':
        return (k, id(s.cls), tuple((f, shape_key(x)) for f, x in sorted(s.fields.items(), key=lambda i: str(i[0]))))
    if k == 'tuple':
        return (k,) + tuple(shape_key(x) for x in s.els)
    if k == 'opt':
        return (k,) + tuple(sorted(map(repr, (shape_key(x) for x in s.alts))))
    if k in ('const', 'opaque'):
        return (k, id(s.v))
    if k == 'map':
        return (k, shape_key(s.val))
    return (k,)
