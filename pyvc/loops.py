"""pyvc: loops by inferred inductive invariants, comprehensions by map and filter laws."""
import ast
from core import *
from core import _ctr
from engine import shape_key, Path
from program import *
import strs

import os
SHOW = os.environ.get('PYVC_RAISE')
DROP = os.environ.get('PYVC_DROP')
I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()


GHOST = ('lvs', 'eqlists', 'setsof', 'logs', 'keysegs', 'pairmaps', 'absent')


class Cand(object):
    def __init__(self, label, fn):
        self.label, self.fn = label, fn


class LoopState(object):
    """what a candidate generator sees: locs {(uid, key): entry value}, read(loc), idx, n"""
    def __init__(self, eng, fr, H, poison, seg, n):
        self.eng, self.fr, self.H, self.poison, self.seg, self.n = eng, fr, H, poison, seg, n
        self.idx = z3.IntVal(0)
        self.entry = {}
        for loc in H:
            if loc not in poison:
                self.entry[loc] = self.freeze(self.read(loc))

    def read(self, loc):
        return self.eng.read_loc(loc)

    def freeze(self, v):
        """terms of the entry value (lists: length and measures)"""
        return self.summ(v)

    def summ(self, v):
        eng = self.eng
        if isinstance(v, PList):
            d = {'n': int_term(eng.length(v)), 'segs*': list(v.segs)}
            for m in eng.measures:
                t = eng.measure(v, m.name) if list_measurable(eng, m, v) else None
                if t is not None:
                    d[m.name] = t
            return ('list', d)
        if is_int(v):
            return ('int', int_term(v))
        if isinstance(v, (bool, SBool)):
            return ('bool', bool_term(v))
        if is_str(v):
            return ('str', str_term(v))
        if isinstance(v, (float, SReal)):
            return ('real', num_term(v))
        if isinstance(v, (PDict, Obj)):
            items = v.d if isinstance(v, PDict) else v.attrs
            return ('rec', dict((f, self.summ(x)) for f, x in items.items()))
        if isinstance(v, Iter):
            return self.summ(v.lst)
        if isinstance(v, tuple):
            return ('rec', dict((i, self.summ(x)) for i, x in enumerate(v)))
        if isinstance(v, SMap):
            return ('map', v.has, dict(v.val), v.ordr, v.nxt)
        if isinstance(v, PSet):
            return ('set', v.has)
        return ('other', v)

    def families(self):
        out = {}
        for m in self.eng.measures:
            out.setdefault(getattr(m, 'family', None) or m.name, []).append(m.name)
        return out

    def total(self, summ, names):
        k = summ[0]
        if k == 'list':
            ts = [summ[1][x] for x in names if x in summ[1]]
            return sum(ts[1:], ts[0]) if ts else None
        if k == 'rec':
            tot = None
            for x in summ[1].values():
                t = self.total(x, names)
                if t is not None:
                    tot = t if tot is None else tot + t
            return tot
        return None


def list_measurable(eng, m, v):
    for s in v.segs:
        sh = s.shape if isinstance(s, SymSeg) else eng.shape_of(s.v)
        if isinstance(s, SymSeg):
            if m.name not in s.meas:
                return False
        elif not m.applies(sh):
            return False
    return True


class Inside(object):
    """the body of a loop is being run"""
    def __init__(self, e, node):
        self.e, self.node = e, node

    def __enter__(self):
        self.n = len(self.e.chain)
        self.e.chain.append((self.e.loopkey[id(self.node)], len(self.e.path.trace)))

    def __exit__(self, *a):
        del self.e.chain[self.n:]


class Loops(object):
    # ------------------------------------------------------------ snapshots
    def snapshot(self):
        objs = {}
        for u, o in self.reg.items():
            objs[u] = (o, save(o))
        segs = [(s, dict(s.cache), s.facts, s.tags, dict(s.pre)) for s in self.allsegs]
        return objs, segs, list(self.stack), dict((k, list(v)) for k, v in getattr(self.path, '__dict__', {}).items() if k in GHOST)

    def restore(self, snap):
        objs, segs, stack, extra = snap
        self.reg = {}
        for u, (o, c) in objs.items():
            load(o, c)
            self.reg[u] = o
        self.allsegs = []
        for (s, cache, facts, tags, pre) in segs:
            s.cache, s.facts, s.tags, s.pre = dict(cache), facts, tags, dict(pre)
            self.allsegs.append(s)
        self.stack[:] = stack
        if self.path is not None:
            for k in GHOST:
                if k in extra:
                    setattr(self.path, k, list(extra[k]))
                else:
                    self.path.__dict__.pop(k, None)

    def read_loc(self, loc):
        uid, key = loc
        o = self.reg[uid]
        if isinstance(o, Frame):
            return o.locals.get(key)
        if isinstance(o, Obj):
            return o.attrs.get(key)
        if isinstance(o, PDict):
            return o.d.get(key)
        if isinstance(o, Iter):
            return o.lst
        return o

    # ------------------------------------------------------------ statements
    def s_For(self, fr, s):
        it = self.ev(fr, s.iter)
        self.for_each(fr, it, lambda v: self.assign(fr, s.target, v), lambda: self.block(fr, s.body),
                      lambda: self.block(fr, s.orelse), s)

    def for_each(self, fr, it, bind, body, orelse, node):
        if isinstance(it, Obj) and isinstance(it.cls, PClass) and it.cls.lookup('__next__'):
            raise Unsupported('loop over an iterator object')
        view = getattr(it, 'view', None)
        try:
            if view is not None and self.single_sym(view):
                lst = view
                seg = lst.segs[0]
                n = seg.n
                shadow = SymSeg(self, n, seg.shape, lambda p, j: seg.sel(p, z3.simplify(n - 1 - j)), dict(seg.meas), seg.tags - {'shared'})
                self.abstract(fr, node, bind, body, None, n, lambda i: self.list_get(lst, wrap_int(n - 1 - i)), lst, shadow)
            elif getattr(it, 'enum', None) is not None and self.single_sym(it.enum[0]) and it.lst.segs:
                lst, start = it.enum
                seg = lst.segs[0]
                self.wr(it)
                it.lst = self.newobj(PList([]))
                f = lambda i: (wrap_int(z3.simplify(start + i)), lst.segs[0].get(i, lst) if self.single_sym(lst) else self.list_get(lst, wrap_int(i)))
                self.abstract(fr, node, bind, body, None, seg.n, f, lst, seg)
            else:
                lst = self.to_list(it)
                consume = it if isinstance(it, Iter) else None
                if lst.concrete() is not None and consume is None:
                    i = 0
                    while i < len(lst.segs):
                        if not isinstance(lst.segs[i], El):
                            raise Unsupported('list changed in a loop')
                        bind(lst.segs[i].v)
                        try:
                            body()
                        except ContSig:
                            pass
                        i += 1
                        if i > 400:
                            raise Unsupported('long concrete loop')
                else:
                    segs = list(lst.segs)
                    for k, sg in enumerate(segs):
                        if isinstance(sg, El):
                            if consume is not None:
                                self.wr(consume)
                                consume.lst = self.newobj(PList(segs[k + 1:]))
                            bind(sg.v)
                            try:
                                body()
                            except ContSig:
                                pass
                        else:
                            if consume is not None:
                                self.wr(consume)
                                consume.lst = self.newobj(PList(segs[k + 1:]))
                            if self.single_sym(lst):
                                f = lambda i: (lst.segs[0].get(i, lst) if self.single_sym(lst) else self.list_get(lst, wrap_int(i)))
                            else:
                                f = lambda i, sg=sg: sg.get(i, None)
                            self.abstract(fr, node, bind, body, None, sg.n, f, lst, sg)
        except BrkSig:
            return
        orelse()

    def single_sym(self, lst):
        return len(lst.segs) == 1 and isinstance(lst.segs[0], SymSeg)

    def s_While(self, fr, s):
        count = 0
        const = isinstance(s.test, ast.Constant)
        try:
            while True:
                c = self.truth(self.ev(fr, s.test))
                if isinstance(c, SBool):
                    t = z3.simplify(c.t)
                    if z3.is_true(t) or z3.is_false(t):
                        c = z3.is_true(t)
                if isinstance(c, bool) and not const:
                    if not c:
                        break
                    try:
                        self.block(fr, s.body)
                    except ContSig:
                        pass
                    count += 1
                    if count > 100:
                        raise Unsupported('long concrete loop')
                    continue
                self.abstract(fr, s, None, lambda: self.block(fr, s.body), lambda: self.truth(self.ev(fr, s.test)), None, None, None, None)
                break
        except BrkSig:
            return
        self.block(fr, s.orelse)

    # ------------------------------------------------------------ the abstract loop
    def abstract(self, fr, node, bind, body, cond, n, fetch, src, seg):
        """an arbitrary number of iterations.  Returns at the normal exit; a break is signalled."""
        if n is not None and self.entails(n == 0):
            return
        key = (id(node), tuple(map(repr, self.path.trace)))
        cache = self.loopcache[-1]
        hk = self.hint_key(node)
        self.loopkey[id(node)] = hk
        if key not in cache:
            c0 = _ctr.n
            cache[key] = self.analyse(fr, node, bind, body, cond, n, fetch, src, seg, self.hints.get(hk))
            self.loopkey[id(node)] = hk
            if not self.shaping:
                self.hints[hk] = cache[key]
            _ctr.n = c0
        H, poison, labels = cache[key]
        _ctr.n += 1
        self.inexact('loop at %s:%s' % (fr.glob.name, getattr(node, 'lineno', 0)))
        st = LoopState(self, fr, H, poison, seg, n)
        st.src = src
        self.entry_snapshot_hook(st)
        cands = [c for c in self.candidates(st) if c.label in labels]
        idx = z3.Int(fresh_name('idx'))
        self.havoc(H, poison)
        self.assume(idx >= 0)
        if n is not None:
            self.assume(idx <= n)
        self.prefix_facts(seg, idx)
        st.idx = idx
        for c in cands:
            self.assume(c.fn(st))
            for t in self.instances(st):
                self.assume(z3.substitute(c.fn(st), t))
        for w in self.wlogs:
            for loc in H:
                w.add(loc)
        # exit or one more iteration
        if cond is None:
            if self.choose(2) == 0:
                self.assume(idx == n)
                if self.check() == z3.unsat:
                    raise PathEnd()
                return
            self.assume(idx < n)
            if self.check() == z3.unsat:
                raise PathEnd()
            with self.inside(node):
                self.step_facts(seg, idx)
                bind(fetch(idx))
                self.run_body(body)
        else:
            if not self.decide(cond()):
                return
            with self.inside(node):
                self.run_body(body)
        raise PathEnd()

    def run_body(self, body):
        try:
            body()
        except ContSig:
            pass

    def inside(self, node):
        return Inside(self, node)

    def hint_key(self, node):
        key, base = self.chain[-1] if self.chain else ((), 0)
        return (key, id(node), tuple(map(repr, self.path.trace[base:])))

    def entry_snapshot_hook(self, st):
        pass

    def prefix_facts(self, seg, idx):
        if seg is None:
            return
        for m in self.measures:
            if m.name in seg.meas and (m.nonneg or 'nonneg' in seg.tags):
                P = seg.prefix(m.name)
                self.assume(z3.And(P(idx) >= 0, P(idx) <= seg.meas[m.name]))

    def step_facts(self, seg, idx):
        if seg is None:
            return
        v = None
        for m in self.measures:
            if m.name in seg.meas:
                v = seg.get(idx) if v is None else v
                P = seg.prefix(m.name)
                self.assume(P(idx + 1) == P(idx) + m.elem(self, v))
                if m.nonneg or 'nonneg' in seg.tags:
                    self.assume(z3.And(P(idx + 1) <= seg.meas[m.name], P(idx + 1) >= P(idx)))

    def havoc(self, H, poison):
        for loc, sh in H.items():
            uid, key = loc
            o = self.reg[uid]
            if loc in poison:
                if isinstance(o, Frame):
                    o.locals[key] = Poison(key)
                    continue
                raise Unsupported('aliased structure in a loop')
            if isinstance(o, Frame):
                o.locals[key] = self.fresh(sh, key)
            elif isinstance(o, Obj):
                o.attrs[key] = self.fresh(sh, key)
            elif isinstance(o, PDict):
                o.d[key] = self.fresh(sh, str(key))
            elif isinstance(o, PList):
                if sh.elem is None or 'empty' in sh.tags:
                    o.segs = []
                    continue
                n0 = int_term(self.length(o))
                f = self.fresh(sh, 'lst')
                if key == 'elem':
                    self.assume(f.segs[0].n == n0)
                o.segs = list(f.segs)
            elif isinstance(o, Iter):
                o.lst = self.fresh(sh, 'it')
            elif isinstance(o, (SMap, PSet)):
                f = self.fresh(sh, 'map')
                o.has = f.has
                if isinstance(o, SMap):
                    o.val, o.ordr, o.nxt = f.val, f.ordr, f.nxt
            else:
                raise Unsupported('havoc of %r' % (o,))

    def analyse(self, fr, node, bind, body, cond, n, fetch, src, seg, hint=None):
        S0 = self.snapshot()
        pc0 = list(self.path.pc)
        old = frozenset(S0[0])
        self.quiet += 1
        entry_exact = self.path.exact
        try:
            H, poison = {}, set()
            if hint is not None:
                if self.hint_fits(hint, old):
                    H, poison = dict(hint[0]), set(hint[1])
            for rnd in range(12):
                newH = dict(H)
                newP = set(poison)
                changed = [False]

                def dry():
                    self.restore(S0)
                    self.havoc(H, poison)
                    idx = z3.Int(fresh_name('idx'))
                    self.assume(idx >= 0)
                    log = set()
                    self.wlogs.append(log)
                    self.shaping += 1
                    try:
                        if cond is None:
                            self.assume(idx < n)
                            self.prefix_facts(seg, idx)
                        elif not self.decide(cond()):
                            return
                        with self.inside(node):
                            if cond is None:
                                self.step_facts(seg, idx)
                                bind(fetch(idx))
                            try:
                                self.run_body(body)
                            except (BrkSig, RetSig, PyRaise):
                                return
                    finally:
                        self.shaping -= 1
                        self.wlogs.pop()
                    self.collect(S0, old, log, newH, newP, H, src)
                self.explore(dry, pc0)
                self.restore(S0)
                same = set(newH) == set(H) and newP == poison and all(shape_key(newH[l]) == shape_key(H[l]) for l in H)
                H0 = H
                H, poison = newH, newP
                if same:
                    break
            else:
                if SHOW:
                    print('unstable', getattr(node, 'lineno', 0), [(l, H0.get(l), H[l]) for l in H if l not in H0 or shape_key(H0[l]) != shape_key(H[l])])
                raise Unsupported('no stable shape for a loop')
            if src is not None and (src.uid, None) in H:
                raise Unsupported('a list changed while iterating over it')
            H = dict((l, self.fix_shape(s)) for l, s in H.items())
            self.detach(H, poison)
            if self.shaping:
                # only what is written, and with what shapes, matters
                return H, poison, set()
            labels = self.houdini(fr, node, bind, body, cond, n, fetch, src, seg, S0, pc0, H, poison, hint)
            return H, poison, labels
        finally:
            self.quiet -= 1
            self.restore(S0)
            self.path.exact = entry_exact

    def hint_fits(self, hint, old):
        """what was found to change in an earlier round is here as well, and of the same kinds"""
        for l, sh in hint[0].items():
            if l[0] not in old:
                return False
            o = self.reg[l[0]]
            if l in hint[1]:
                if not isinstance(o, Frame):
                    return False
                continue
            try:
                if isinstance(o, Frame) and l[1] not in o.locals or isinstance(o, Obj) and l[1] not in o.attrs or isinstance(o, PDict) and l[1] not in o.d:
                    return False
                if isinstance(o, (Frame, Obj, PDict)) == (l[1] is None):
                    return False
                cur = self.fix_shape(self.join(self.shape_of(self.read_loc(l)), sh))
                if shape_key(cur) != shape_key(sh):
                    return False
            except Unsupported:
                return False
        return True

    def detach(self, H, poison):
        """an object that a loop both changes and replaces at its place: nothing else may refer to it, and what it held on
        entry needs no invariant of its own"""
        for loc in list(H):
            o = self.reg[loc[0]]
            if not isinstance(o, (Frame, Obj, PDict)):
                continue
            v = self.read_loc(loc)
            if not isinstance(v, HeapObj) or isinstance(v, Frame):
                continue
            todo, reach = [v], {}
            while todo:
                x = todo.pop()
                if x.uid in reach or isinstance(x, Frame):
                    continue
                reach[x.uid] = x
                todo += [c for _, c in contents(x) if isinstance(c, HeapObj)]
            hit = set(l[0] for l in H if l[0] in reach)
            if not hit:
                continue
            for u in reach:
                for r in self.refs_to(reach[u], frozenset(self.reg)):
                    if r == loc or r[0] in reach or r in poison:
                        continue
                    if r[1] is not None and isinstance(self.reg[r[0]], Frame) and r[1] != '<yields>':
                        poison.add(r)
                        H[r] = TNone
                    else:
                        raise Unsupported('aliasing in a loop')
            if loc not in poison:
                for l in [l for l in H if l[0] in hit]:
                    del H[l]

    def collect(self, S0, old, log, newH, newP, H, src):
        """after one iteration: what was written, and with what shapes"""
        objs = S0[0]
        locs = [l for l in sorted(log, key=str) if l[0] in old]
        for loc in locs:
            uid, key = loc
            o = self.reg[uid]
            if isinstance(o, Frame) and o not in S0[2] and o.uid in old:
                pass
            saved = objs[uid][1]
            cur = self.read_loc(loc)
            if isinstance(o, Frame):
                if key not in saved['locals'] or isinstance(saved['locals'].get(key), Poison):
                    newP.add(loc)
                    newH[loc] = TNone
                    continue
                ent = saved['locals'][key]
            elif isinstance(o, Obj):
                if key not in saved['attrs']:
                    raise Unsupported('attribute %s created in a loop' % key)
                if key not in o.attrs:
                    raise Unsupported('attribute removed in a loop')
                ent = saved['attrs'][key]
            elif isinstance(o, PDict):
                if key not in saved['d'] or key not in o.d:
                    raise Unsupported('dict key %r added or removed in a loop' % (key,))
                ent = saved['d'][key]
            else:
                ent = None
            if loc in newP:
                continue
            if isinstance(o, (Frame, Obj, PDict)):
                if isinstance(cur, HeapObj) and not isinstance(cur, (Frame,)) and not immutable(cur):
                    if cur is ent and loc not in H:
                        continue          # the same object: only its contents can have changed
                    if cur.uid in old or getattr(cur, 'origin', None) is not None:
                        if isinstance(o, Frame):
                            newP.add(loc)
                            newH[loc] = TNone
                            continue
                        raise Unsupported('aliasing in a loop')
                    bad = self.aliased(cur, loc, old, newP)
                    if bad:
                        if isinstance(o, Frame):
                            newP.add(loc)
                            newH[loc] = TNone
                            continue
                        raise Unsupported('aliasing in a loop')
                sh = self.join(self.shape_of(cur), self.shape_of(ent))
            else:
                sh = self.shape_of(cur) if not isinstance(o, Iter) else self.shape_of(cur)
                # the entry contents
                esh = self.entry_shape(o, saved)
                sh = self.join(sh, esh)
            if loc in newH:
                sh = self.join(newH[loc], sh)
            newH[loc] = sh
        # new objects in lists must not be reachable by another way
        for loc in locs:
            if loc in newP:
                continue
            o = self.reg[loc[0]]
            if isinstance(o, (PList, Iter)):
                lst = o if isinstance(o, PList) else o.lst
                for s in lst.segs:
                    if isinstance(s, El) and isinstance(s.v, HeapObj) and not immutable(s.v):
                        refs = self.refs_to(s.v, old)
                        others = [r for r in refs if r != (lst.uid, None) and r not in newP]
                        if len(refs) > 1 and others:
                            for r in others:
                                if isinstance(self.reg.get(r[0]), Frame):
                                    newP.add(r)
                                    newH[r] = TNone
                                elif s.v.uid in old:
                                    raise Unsupported('aliasing in a loop')
                                else:
                                    raise Unsupported('aliasing in a loop')

    def entry_shape(self, o, saved):
        t = type(o)
        if isinstance(o, PList):
            p = PList(saved['segs'])
            return self.shape_of(p)
        if isinstance(o, Iter):
            return self.shape_of(saved['lst'])
        if isinstance(o, SMap):
            return Sh('map', val=o.vshape, ktags=o.ktags)
        if isinstance(o, PSet):
            return Sh('set', tags=o.tags)
        raise Unsupported('shape of %r' % (o,))

    def refs_to(self, target, old):
        out = []
        for u in old:
            o = self.reg.get(u)
            if o is None:
                continue
            for key, v in contents(o):
                if v is target:
                    out.append((u, key))
        return out

    def aliased(self, v, loc, old, newP):
        """another way to reach v or an object below it from what existed before"""
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if x.uid in seen:
                return True
            seen.add(x.uid)
            if x.uid in old:
                return True
            refs = [r for r in self.refs_to(x, old) if r != loc and r not in newP]
            if refs:
                # local names that merely refer to it are given up
                for r in refs:
                    if isinstance(self.reg.get(r[0]), Frame) and r not in newP:
                        return True
                return True
            for key, c in contents(x):
                if isinstance(c, HeapObj) and not immutable(c):
                    todo.append(c)
        return False

    # ------------------------------------------------------------ candidates
    def candidates(self, st):
        out = []
        ints = [(l, e[1]) for l, e in st.entry.items() if e[0] == 'int']
        lists = [(l, e[1]) for l, e in st.entry.items() if e[0] == 'list']
        ghost = [(l, e) for l, e in lists if is_event(st.H[l])]
        lists = [(l, e) for l, e in lists if not is_event(st.H[l])]

        def name(l):
            o = self.reg[l[0]]
            return '%s.%s' % (type(o).__name__ + ('' if isinstance(o, Frame) and o is st.fr else '#%d' % l[0]), l[1])

        def rd(l, s):
            return s.summ(s.read(l))
        for l, e in ints:
            def val(s, l=l):
                r = rd(l, s)
                return r[1] if r[0] == 'int' else None

            def mk(label, f, l=l, val=val):
                def g(s):
                    v = val(s)
                    return f(v, s) if v is not None else z3.BoolVal(False)
                out.append(Cand('%s:%s' % (name(l), label), g))
            mk('==entry', lambda v, s, e=e: v == e)
            mk('>=entry', lambda v, s, e=e: v >= e)
            mk('<=entry', lambda v, s, e=e: v <= e)
            mk('>=0', lambda v, s: v >= 0)
            mk('==entry+idx', lambda v, s, e=e: v == e + s.idx)
            mk('==entry-idx', lambda v, s, e=e: v == e - s.idx)
            if st.n is not None:
                mk('<=entry+idx', lambda v, s, e=e: v <= e + s.idx)
            for l2, e2 in lists:
                def ln(s, l2=l2):
                    r = rd(l2, s)
                    return r[1]['n'] if r[0] == 'list' else z3.IntVal(-1)
                mk('<=len(%s)' % name(l2), lambda v, s, ln=ln: v <= ln(s))
                mk('==len(%s)' % name(l2), lambda v, s, ln=ln: v == ln(s))
                mk('+len(%s)==entry' % name(l2), lambda v, s, ln=ln, e=e, e2=e2: v + ln(s) == e + e2['n'])
                for m in self.measures:
                    mk('-M(%s,%s)==entry' % (name(l2), m.name), lambda v, s, e=e, e2=e2, m=m, l2=l2:
                       (v - rd(l2, s)[1][m.name] == e - e2[m.name]) if m.name in e2 and rd(l2, s)[0] == 'list' and m.name in rd(l2, s)[1] else z3.BoolVal(False))
            for k2, v2 in sorted(st.fr.locals.items()):
                if isinstance(v2, SInt) and (st.fr.uid, k2) not in st.H:
                    mk('<=' + k2, lambda v, s, t=v2.t: v <= t)
            for k2, v2 in self.still_lists(st):
                mk('<=len(%s)' % k2, lambda v, s, t=int_term(self.length(v2)): v <= t)
            if st.seg is not None:
                for m in st.seg.meas:
                    mk('==entry+P:' + m, lambda v, s, e=e, m=m: v == e + s.seg.prefix(m)(s.idx))
        for i, (l, e) in enumerate(ints):
            for (l2, e2) in ints[i + 1:]:
                def f(s, l=l, l2=l2, e=e, e2=e2):
                    a, b = rd(l, s), rd(l2, s)
                    return a[1] + b[1] == e + e2 if a[0] == b[0] == 'int' else z3.BoolVal(False)

                def g(s, l=l, l2=l2, e=e, e2=e2):
                    a, b = rd(l, s), rd(l2, s)
                    return a[1] - b[1] == e - e2 if a[0] == b[0] == 'int' else z3.BoolVal(False)
                out.append(Cand('%s+%s' % (name(l), name(l2)), f))
                out.append(Cand('%s-%s' % (name(l), name(l2)), g))
        for l, e in st.entry.items():
            if e[0] in ('bool', 'str', 'real'):
                out.append(Cand('%s:==entry' % name(l), lambda s, l=l, e=e: (rd(l, s)[1] == e[1]) if rd(l, s)[0] == e[0] else z3.BoolVal(False)))
        for l, e in ghost:
            for m in e:
                if m in ('n', 'segs*'):
                    continue

                def same(s, l=l, e=e, m=m):
                    r = rd(l, s)
                    return r[1][m] == e[m] if r[0] == 'list' and m in r[1] else z3.BoolVal(False)
                out.append(Cand('%s:M:%s==entry' % (name(l), m), same))
                for mm in (st.seg.meas if st.seg is not None else ()):
                    def grow(s, l=l, e=e, m=m, mm=mm):
                        r = rd(l, s)
                        return r[1][m] == e[m] + s.seg.prefix(mm)(s.idx) if r[0] == 'list' and m in r[1] else z3.BoolVal(False)
                    out.append(Cand('%s:M:%s==entry+P:%s' % (name(l), m, mm), grow))
        for l, e in lists:
            def mkl(label, f, l=l):
                def g(s):
                    r = rd(l, s)
                    return f(r[1], s) if r[0] == 'list' else z3.BoolVal(False)
                out.append(Cand('%s:%s' % (name(l), label), g))
            mkl('len==entry', lambda v, s, e=e: v['n'] == e['n'])
            mkl('len>=entry', lambda v, s, e=e: v['n'] >= e['n'])
            mkl('len==entry+idx', lambda v, s, e=e: v['n'] == e['n'] + s.idx)
            mkl('len>=entry-idx', lambda v, s, e=e: v['n'] >= e['n'] - s.idx)
            mkl('len==entry-idx', lambda v, s, e=e: v['n'] == e['n'] - s.idx)
            mkl('len<=entry+idx', lambda v, s, e=e: v['n'] <= e['n'] + s.idx)
            mkl('len<=entry', lambda v, s, e=e: v['n'] <= e['n'])
            for m in e:
                if m in ('n', 'segs*'):
                    continue
                mkl('M:%s==entry' % m, lambda v, s, e=e, m=m: v[m] == e[m] if m in v else z3.BoolVal(False))
                mkl('M:%s==entry-idx' % m, lambda v, s, e=e, m=m: v[m] == e[m] - s.idx if m in v else z3.BoolVal(False))
                mkl('M:%s<=entry' % m, lambda v, s, e=e, m=m: v[m] <= e[m] if m in v else z3.BoolVal(False))
                if st.seg is not None:
                    for mm in st.seg.meas:
                        mkl('M:%s==entry+P:%s' % (m, mm), lambda v, s, e=e, m=m, mm=mm: v[m] == e[m] + s.seg.prefix(mm)(s.idx) if m in v else z3.BoolVal(False))
                        mkl('M:%s<=entry+P:%s' % (m, mm), lambda v, s, e=e, m=m, mm=mm: v[m] <= e[m] + s.seg.prefix(mm)(s.idx) if m in v else z3.BoolVal(False))
                    if st.n is not None:
                        mkl('len==entry+idx-P:%s' % m, lambda v, s, e=e, m=m: v['n'] == e['n'] + s.idx - s.seg.prefix(m)(s.idx) if m in s.seg.meas else z3.BoolVal(False))
            self.position_cands(st, l, e, rd, name, out)
        for l, e in st.entry.items():
            if e[0] in ('map', 'set'):
                self.key_cands(st, l, e, rd, name, out)
        # conservation: what a family of measures counts over all the loop changes
        for fam, names in st.families().items():
            locs = [l for l, e in st.entry.items() if st.total(e, names) is not None]
            if len(locs) > 1:
                def cons(s, locs=locs, names=names):
                    a, b = z3.IntVal(0), z3.IntVal(0)
                    for l in locs:
                        t = s.total(rd(l, s), names)
                        if t is None:
                            return z3.BoolVal(False)
                        a = a + t
                        b = b + s.total(s.entry[l], names)
                    return a == b
                out.append(Cand('conserved:' + fam, cons))
                if st.seg is not None and any(x in st.seg.meas for x in names):
                    pn = [x for x in names if x in st.seg.meas][0]

                    def consp(s, locs=locs, names=names, pn=pn):
                        a, b = z3.IntVal(0), z3.IntVal(0)
                        for l in locs:
                            t = s.total(rd(l, s), names)
                            if t is None:
                                return z3.BoolVal(False)
                            a = a + t
                            b = b + s.total(s.entry[l], names)
                        return a == b + s.seg.prefix(pn)(s.idx)
                    out.append(Cand('conserved+P:' + fam, consp))
        if st.seg is not None:
            for m in st.seg.meas:
                out.append(Cand('P:%s==0' % m, lambda s, m=m: s.seg.prefix(m)(s.idx) == 0))
        lean = getattr(self, 'lean', None)
        if lean:
            out = [c for c in out if not any(x in c.label for x in lean)]
        for gen in self.cands:
            for label, fn in gen(self, st):
                out.append(Cand('C:' + label, fn))
        return out

    def key_cands(self, st, l, e, rd, name, out):
        """an arbitrary key K of a map or set"""
        K = self.K
        h0 = z3.Select(e[1], K)

        def mk(label, f):
            def g(s):
                r = rd(l, s)
                if r[0] != e[0]:
                    return z3.BoolVal(False)
                return f(r, s)
            out.append(Cand('%s:%s' % (name(l), label), g))
        has = lambda r: z3.Select(r[1], K)
        facts = [('has==entry', lambda r: has(r) == h0), ('entry->has', lambda r: z3.Implies(h0, has(r))), ('has->entry', lambda r: z3.Implies(has(r), h0)),
                 ('has', has), ('!has', lambda r: z3.Not(has(r)))]
        if e[0] == 'map':
            for p, a in e[2].items():
                v0 = z3.Select(a, K)
                facts.append(('has->val%s==entry' % pname(p), lambda r, p=p, v0=v0: z3.Implies(has(r), z3.Select(r[2][p], K) == v0)))
            facts.append(('kept->ord==entry', lambda r: z3.Implies(z3.And(h0, has(r)), z3.Select(r[3], K) == z3.Select(e[3], K))))
            facts.append(('new->ord>=nxt', lambda r: z3.Implies(z3.And(z3.Not(h0), has(r)), z3.Select(r[3], K) >= e[4])))
            facts.append(('nxt>=entry', lambda r: r[4] >= e[4]))
        for label, f in facts:
            mk(label, lambda r, s, f=f: f(r))
        if st.seg is not None:
            for m in self.measures:
                if m.name in st.seg.meas and getattr(m, 'key', False):
                    for label, f in facts:
                        mk('P:%s==0->%s' % (m.name, label), lambda r, s, f=f, m=m: z3.Implies(s.seg.prefix(m.name)(s.idx) == 0, f(r)))
                        mk('P:%s>0->%s' % (m.name, label), lambda r, s, f=f, m=m: z3.Implies(s.seg.prefix(m.name)(s.idx) > 0, f(r)))

    def instances(self, st):
        """(variable, term): where an invariant shown for the arbitrary position J or key K is used as well (only if nothing is assumed
        of J, or, where the contract names terms for K, of K)"""
        out = []
        if getattr(self, 'jfree', False) and st.seg is not None and st.seg.shape.k == 'int':
            out.append((self.J, st.seg.sel((), st.idx)))
        if getattr(self, 'kinst', None) is not None:
            out += [(self.K, x) for x in self.kinst(self, st)]
        return out

    def still_lists(self, st):
        """lists at hand that the loop does not change"""
        out = []
        for k, v in sorted(st.fr.locals.items()):
            if isinstance(v, PList) and v.segs and (v.uid, None) not in st.H and (st.fr.uid, k) not in st.H:
                out.append((k, v))
            elif isinstance(v, Obj):
                for a, x in sorted(v.attrs.items()):
                    if isinstance(x, PList) and x.segs and (x.uid, None) not in st.H and (v.uid, a) not in st.H:
                        out.append(('%s.%s' % (k, a), x))
        return out[:6]

    def leaf_at(self, lst, p, j):
        """the leaf p of element j of a list (any value beyond its end)"""
        segs = lst.segs if isinstance(lst, PList) else lst
        off = z3.IntVal(0)
        parts = []
        for s in segs:
            if isinstance(s, El):
                sh = self.shape_of(s.v)
                d = dict(self.to_leaves(s.v, sh))
                if p not in d:
                    raise Unsupported('no such leaf')
                parts.append((off, z3.IntVal(1), d[p]))
                off = off + 1
            else:
                if p not in [q for q, _ in self.leaves(s.shape)]:
                    raise Unsupported('no such leaf')
                parts.append((off, s.n, s.sel(p, z3.simplify(j - off))))
                off = off + s.n
        if not parts:
            raise Unsupported('empty list')
        t = parts[-1][2]
        for off, n, x in reversed(parts[:-1]):
            t = z3.If(j < off + n, x, t)
        return z3.simplify(t)

    def elem_shape(self, segs):
        el = None
        for s in segs:
            sh = s.shape if isinstance(s, SymSeg) else self.shape_of(s.v)
            el = sh if el is None else self.join(el, sh)
        return el

    def position_cands(self, st, l, e, rd, name, out):
        """an arbitrary position J: unchanged if it was there on entry, a copy of the source's element otherwise"""
        J = self.J
        sh = st.H[l]
        if sh is None or sh.k != 'list' or sh.elem is None:
            return
        try:
            sorts = dict(self.leaves(sh.elem))
            paths = list(sorts)
        except Unsupported:
            return
        if len(paths) > 12 or (sh.elem.k == 'rec' and isinstance(sh.elem.cls, Ext) and sh.elem.cls.dotted.startswith('ev*')):
            return
        if e['segs*']:
            if st.seg is not None and st.seg.shape.k == 'int':
                def inside(s):
                    r = rd(l, s)
                    if r[0] != 'list':
                        return z3.BoolVal(False)
                    c = s.seg.sel((), s.idx)
                    hyp = [f(s.idx, wrap_int(c)) for f in s.seg.facts]
                    return z3.Implies(z3.And(s.idx >= 0, s.idx < s.n, *hyp), z3.And(c >= 0, c < r[1]['n']))
                out.append(Cand('%s:cur<len' % name(l), inside))
            for p in paths:
                def frame(s, p=p):
                    r = rd(l, s)
                    if r[0] != 'list':
                        return z3.BoolVal(False)
                    return z3.Implies(z3.And(J >= 0, J < e['n']), self.leaf_at(r[1]['segs*'], p, J) == self.leaf_at(e['segs*'], p, J))
                out.append(Cand('%s:[J]%s==entry' % (name(l), pname(p)), frame))
                if st.seg is not None and st.seg.shape.k == 'int':
                    def upto(s, p=p):
                        r = rd(l, s)
                        if r[0] != 'list':
                            return z3.BoolVal(False)
                        return z3.Implies(z3.And(s.idx < s.n, J >= 0, J <= s.seg.sel((), s.idx), J < e['n']),
                                          self.leaf_at(r[1]['segs*'], p, J) == self.leaf_at(e['segs*'], p, J))
                    out.append(Cand('%s:[J<=cur]%s==entry' % (name(l), pname(p)), upto))
        if st.seg is not None:
            try:
                sp = dict(self.leaves(st.seg.shape))
            except Unsupported:
                return
            if all(p in sp and sp[p] == sorts[p] for p in paths):
                def copy(s):
                    r = rd(l, s)
                    if r[0] != 'list':
                        return z3.BoolVal(False)
                    if not r[1]['segs*']:
                        return z3.BoolVal(True)
                    c = [self.leaf_at(r[1]['segs*'], p, J) == s.seg.sel(p, z3.simplify(J - e['n'])) for p in paths]
                    return z3.Implies(z3.And(J >= e['n'], J < r[1]['n']), z3.And(*c))
                out.append(Cand('%s:[J]==source' % name(l), copy))

    def holds(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        r = self.check(z3.Not(c))
        if r == z3.unknown:
            self.gaveup = True         # a candidate was given up for lack of time: a refutation below it decides nothing
        return r == z3.unsat

    def houdini(self, fr, node, bind, body, cond, n, fetch, src, seg, S0, pc0, H, poison, hint=None):
        live = {}
        # candidates that hold on entry
        dead = set()

        def init():
            self.restore(S0)
            st = LoopState(self, fr, H, poison, seg, n)
            st.src = src
            cs = self.candidates(st)
            for c in cs:
                if hint is not None and c.label not in hint[2]:
                    continue
                live.setdefault(c.label, True)
                if c.label in dead:
                    continue
                try:
                    ok = self.holds(c.fn(st))
                except (Unsupported, KeyError):
                    ok = False
                if not ok:
                    dead.add(c.label)
                    if DROP and DROP in c.label:
                        print('dead', getattr(node, 'lineno', 0), c.label, self.path.trace)
        self.explore(init, pc0)
        labels = set(l for l in live if l not in dead)
        for rnd in range(40):
            drop = set()

            def step():
                self.restore(S0)
                st = LoopState(self, fr, H, poison, seg, n)
                st.src = src
                cs = [c for c in self.candidates(st) if c.label in labels]
                self.havoc(H, poison)
                idx = z3.Int(fresh_name('idx'))
                self.assume(idx >= 0)
                st.idx = idx
                self.prefix_facts(seg, idx)
                for c in cs:
                    try:
                        t = z3.simplify(c.fn(st))
                    except (Unsupported, KeyError):
                        t = z3.BoolVal(False)
                    if z3.is_false(t):              # cannot be stated about the state between two rounds
                        drop.add(c.label)
                    else:
                        self.assume(t)
                        for x in self.instances(st):
                            self.assume(z3.substitute(t, x))
                cs = [c for c in cs if c.label not in drop]
                if cond is None:
                    self.assume(idx < n)
                elif not self.decide(cond()):
                    return
                with self.inside(node):
                    if cond is None:
                        self.step_facts(seg, idx)
                        bind(fetch(idx))
                    try:
                        self.run_body(body)
                    except (BrkSig, RetSig, PyRaise):
                        return
                st.idx = z3.simplify(idx + 1)
                self.prefix_facts(seg, st.idx)
                for c in cs:
                    if c.label in drop:
                        continue
                    try:
                        ok = self.holds(c.fn(st))
                    except (Unsupported, KeyError):
                        ok = False
                    if not ok:
                        drop.add(c.label)
                        if DROP and DROP in c.label:
                            print('drop', getattr(node, 'lineno', 0), c.label, self.path.trace, self.path.decs[-6:])
                            try:
                                t = c.fn(st)
                                print('   ', self.path.solver.check(z3.Not(t)), self.path.solver.reason_unknown(), z3.simplify(t))
                            except Exception as ex:
                                print('   ', repr(ex))
            self.explore(step, pc0)
            if not drop:
                break
            labels -= drop
        else:
            raise Unsupported('invariants do not settle')
        self.loops_inferred['%s:%s' % (fr.glob.name, getattr(node, 'lineno', 0))] = sorted(labels)
        return labels

    # ------------------------------------------------------------ comprehensions
    def comprehension(self, fr, elt, gens):
        out = self.newobj(PList())
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        cf = self.newobj(Frame(fr.func, fr.glob, fr.parents))
        cf.locals = dict(fr.locals)
        cf.cls = fr.cls
        cf.cur_exc = fr.cur_exc
        g0 = gens[0]
        src = self.ev(fr, g0.iter)
        lst = self.to_list(src)
        if len(gens) == 1 and lst.concrete() is None:
            def cond(v):
                self.assign(cf, g0.target, v)
                for c in g0.ifs:
                    t = self.truth(self.ev(cf, c))
                    if not self.decide(t):
                        return False
                return True

            def val(v):
                self.assign(cf, g0.target, v)
                return self.ev(cf, elt)
            try:
                if g0.ifs:
                    lst = self.filter_list(cond, lst)
                if isinstance(src, Iter):
                    self.drain(src)
                ident = isinstance(elt, ast.Name) and isinstance(g0.target, ast.Name) and elt.id == g0.target.id
                if ident:
                    return self.newobj(PList(self.copy_segs(lst)))
                return self.map_list(val, lst)
            except NeedLoop:
                pass
        self.comp_rec(cf, elt, gens, 0, out, src)
        return out

    def comp_rec(self, cf, elt, gens, k, out, src=None):
        if k == len(gens):
            self.list_append(out, self.ev(cf, elt))
            return
        g = gens[k]
        it = src if k == 0 and src is not None else self.ev(cf, g.iter)

        def body():
            for c in g.ifs:
                if not self.decide(self.truth(self.ev(cf, c))):
                    return
            self.comp_rec(cf, elt, gens, k + 1, out)
        self.stack.append(cf)
        try:
            self.for_each(cf, it, lambda v: self.assign(cf, g.target, v), body, lambda: None, g)
        finally:
            if cf in self.stack:
                self.stack.remove(cf)

    def generic(self, seg, fn):
        """fn applied to the element at a generic index j: [(conditions, assumptions, kind, value)] over all its paths"""
        S0 = self.snapshot()
        pc0 = list(self.path.pc)
        c0 = _ctr.n
        j = z3.Int(fresh_name('gj'))
        res = []
        ex0 = self.path.exact
        inex = []

        def run():
            self.restore(S0)
            base = len(self.path.pc)
            self.path.decs = []
            log = set()
            self.wlogs.append(log)
            # the cache must not know this index
            try:
                self.assume(z3.And(j >= 0, j < seg.n))
                v = seg.get(j)
                k0 = len(self.path.pc)
                try:
                    r = ('val', fn(v))
                except PyRaise as ex:
                    r = ('raise', ex.val)
            finally:
                self.wlogs.pop()
            if any(u in S0[0] and not isinstance(S0[0][u][0], Frame) for (u, k) in log):
                raise NeedLoop()
            if not self.path.exact:
                inex.extend(self.path.why)
            res.append((list(self.path.decs), list(self.path.pc[k0:]), r[0], r[1], dict(self.path.__dict__)))
        self.quiet += 1
        try:
            self.explore(run, pc0)
        finally:
            self.quiet -= 1
            self.restore(S0)
        _ctr.n = c0 + 1
        if inex:
            for x in inex:
                self.inexact(x)
        return j, res

    def filter_list(self, cond, lst):
        out = []
        for s in lst.segs:
            if isinstance(s, El):
                if self.truthy(cond(s.v)):
                    out.append(s)
                continue
            if self.entails(s.n == 0):
                continue
            j, res = self.generic(s, lambda v: self.truth(cond(v)))
            if any(r[2] == 'raise' for r in res):
                self.maybe_raise(s, j, res, cond)
            terms = []
            for decs, asm, kind, v, _ in res:
                if kind == 'raise':
                    continue
                terms.append(z3.And(*(list(decs) + [bool_term(v)])))
            p = z3.simplify(z3.Or(*terms)) if terms else z3.BoolVal(False)
            if z3.is_true(p):
                out.append(self.share(s))
                continue
            if z3.is_false(p):
                continue
            out.append(self.filtered(s, j, p, cond))
        return self.newobj(PList(out))

    def filtered(self, s, j, p, cond):
        self.share(s)
        meas = {}
        n = z3.Int(fresh_name('fn'))
        g = z3.Function(fresh_name('fidx'), I, I)
        self.assume(z3.And(n >= 0, n <= s.n))
        # laws for the measures, decided at the generic element
        laws = self.filter_laws(s, j, p)
        for m in s.meas:
            how = laws.get(m)
            if how == 'zero':
                meas[m] = z3.IntVal(0)
            elif how == 'same':
                meas[m] = s.meas[m]
            elif self.at_witness(s, j, p, m) is not None:
                # the measure counts one value only: p is the same for all elements counted
                meas[m] = z3.If(self.at_witness(s, j, p, m), s.meas[m], z3.IntVal(0))
            else:
                meas[m] = z3.Int(fresh_name('M_' + m))
                mm = [x for x in self.measures if x.name == m][0]
                if mm.nonneg:
                    self.assume(z3.And(meas[m] >= 0, meas[m] <= s.meas[m]))
        for m, how in laws.items():
            if how == 'zero' and (m, 'not') in laws:
                pass
        if getattr(s, 'range_from', None) is not None:
            self.range_law(s, j, p, n)
        if 'len' in laws:
            k, m = laws['len']
            self.assume(n == (s.meas[m] if k == 'is' else s.n - s.meas[m]))
        sel = lambda q, i: s.sel(q, g(i))
        seg = SymSeg(self, n, s.shape, sel, meas, [t for t in s.tags])
        facts = s.facts

        def fact(i, v):
            c = [g(i) >= 0, g(i) < s.n, z3.substitute(p, (j, g(i))), z3.Implies(i + 1 < n, g(i) < g(i + 1)), z3.Implies(i > 0, g(i - 1) < g(i))]
            c += [f(g(i), v) for f in facts]
            return z3.And(*c)
        seg.facts = (fact,)
        for a in seg.axioms():
            self.assume(a)
        seg.filter_of = (s, j, p)
        self.inexact('filter of a symbolic list')
        return seg

    def at_witness(self, s, j, p, m):
        m = [x for x in self.measures if x.name == m][0]
        if not (getattr(m, 'witness', None) and m.unit and s.shape.k == 'str'):
            return None
        v = self.build(s.shape, lambda q: s.sel(q, j))
        if not self.entails(z3.Implies(m.elem(self, v) != 0, str_term(v) == m.witness(self))):
            return None
        c = z3.simplify(z3.substitute(p, (s.sel((), j), m.witness(self))))
        todo, seen = [c], set()
        while todo:
            t = todo.pop()
            if t.eq(j):
                return None
            if t.get_id() not in seen:
                seen.add(t.get_id())
                todo += t.children()
        return c

    def range_law(self, s, j, p, n):
        """the positions of a list at which p holds: as many as the measure counts that is p"""
        ids = set()
        todo = [p]
        while todo:
            t = todo.pop()
            if t.get_id() not in ids:
                ids.add(t.get_id())
                todo += t.children()
        for L in list(self.allsegs):
            if not L.meas or L.n.get_id() != s.n.get_id() and not z3.simplify(L.n == s.n).eq(z3.BoolVal(True)):
                continue
            try:
                jj = z3.simplify(s.range_from + j)
                v = self.build(L.shape, lambda q: L.sel(q, jj))
            except (Unsupported, PathEnd):
                continue
            for m in self.measures:
                if m.unit and m.name in L.meas:
                    t = m.elem(self, v)
                    for want, val in ((t == 1, L.meas[m.name]), (t == 0, L.n - L.meas[m.name])):
                        if self.check(z3.And(s.range_from == 0, j >= 0, j < s.n, p != want)) == z3.unsat:
                            self.assume(n == val)
                            return

    def filter_laws(self, s, j, p):
        laws = {}
        S0 = self.snapshot()
        pc0 = list(self.path.pc)
        state = {}
        for m in self.measures:
            if m.name in s.meas:
                state[m.name] = {'zero': True, 'same': True, 'is': m.unit, 'isnot': m.unit}

        def run():
            self.restore(S0)
            self.assume(z3.And(j >= 0, j < s.n))
            v = s.get(j)
            for m in self.measures:
                if m.name not in s.meas:
                    continue
                e = m.elem(self, v)
                st = state[m.name]
                if st['zero'] and not self.entails(z3.Implies(p, e == 0)):
                    st['zero'] = False
                if st['same'] and not self.entails(z3.Implies(z3.Not(p), e == 0)):
                    st['same'] = False
                if st['is'] and not self.entails(p == (e == 1)):
                    st['is'] = False
                if st['isnot'] and not self.entails(p == (e == 0)):
                    st['isnot'] = False
        self.quiet += 1
        try:
            self.explore(run, pc0)
        finally:
            self.quiet -= 1
            self.restore(S0)
        for m, st in state.items():
            if st['is']:
                laws['len'] = ('is', m)
            elif st['isnot']:
                laws['len'] = ('isnot', m)
            if st['same']:
                laws[m] = 'same'
            elif st['zero']:
                laws[m] = 'zero'
        return laws

    def maybe_raise(self, s, j, res, fn):
        """some element may make fn raise"""
        if self.choose(2) == 0:
            jj = z3.Int(fresh_name('rj'))
            self.assume(z3.And(jj >= 0, jj < s.n))
            fn(s.get(jj))
            raise PathEnd()
        bad = []
        for decs, asm, kind, v, _ in res:
            if kind == 'raise':
                bad.append(z3.And(*decs) if decs else z3.BoolVal(True))
        b = z3.Or(*bad)
        if z3.is_true(z3.simplify(b)):
            self.assume(s.n == 0)
        if self.check() == z3.unsat:
            raise PathEnd()
        self.add_fact(s, lambda i, v: z3.Not(z3.substitute(b, (j, i))))

    def map_list(self, fn, lst):
        out = []
        for s in lst.segs:
            if isinstance(s, El):
                out.append(El(fn(s.v)))
                continue
            if self.entails(s.n == 0):
                continue
            j, res = self.generic(s, fn)
            if any(r[2] == 'raise' for r in res):
                self.maybe_raise(s, j, res, fn)
            good = [r for r in res if r[2] == 'val']
            if not good:
                raise PathEnd()
            sh = None
            for r in good:
                x = self.shape_of(r[3])
                sh = x if sh is None else self.join(sh, x)
            lv = []
            for r in good:
                if any(isinstance(x, HeapObj) and getattr(x, 'origin', None) is not None for x in [r[3]]):
                    raise NeedLoop()
                lv.append((z3.And(*r[0]) if r[0] else z3.BoolVal(True), dict(self.to_leaves(r[3], sh))))

            def leaf(p):
                t = lv[-1][1][p]
                for c, d in reversed(lv[:-1]):
                    t = z3.If(c, d[p], t)
                return t
            terms = dict((p, leaf(p)) for p, _ in self.leaves(sh))
            meas = self.map_laws(s, j, sh, terms)
            sel = lambda p, i, terms=terms, j=j: z3.substitute(terms[p], (j, i if not isinstance(i, int) else z3.IntVal(i)))
            seg = SymSeg(self, s.n, sh, sel, meas)
            for a in seg.axioms():
                self.assume(a)
            asms = [(r[0], r[1]) for r in good]

            def fact(i, v, asms=asms, j=j, s=s):
                c = []
                for decs, asm in asms:
                    if asm:
                        c.append(z3.Implies(z3.And(*decs) if decs else z3.BoolVal(True), z3.And(*asm)))
                e = z3.And(*c) if c else z3.BoolVal(True)
                return z3.substitute(e, (j, i))
            if not any(has_fresh(a) for _, asm in asms for a in asm):
                seg.facts = (fact,)
            if s.facts:
                # what is known of the elements it is made from
                seg.facts += (lambda i, v, s=s: z3.And(*[f(i, self.build(s.shape, lambda p: s.sel(p, i))) for f in s.facts]),)
            seg.mapped = (s, fn)
            out.append(seg)
        return self.newobj(PList(out))

    def map_laws(self, s, j, sh, terms):
        """measures of the mapped list from those of the source, decided at the generic element"""
        want = [m for m in self.measures if m.applies(sh)]
        if not want:
            return {}
        S0 = self.snapshot()
        pc0 = list(self.path.pc)
        poss = dict((m.name, None) for m in want)

        def run():
            self.restore(S0)
            self.assume(z3.And(j >= 0, j < s.n))
            v = s.get(j)
            r = self.build(sh, lambda p: terms[p])
            for m in want:
                e = m.elem(self, r)
                ok = set()
                if self.entails(e == 0):
                    ok.add(('zero',))
                if self.entails(e == 1):
                    ok.add(('one',))
                for mm in self.measures:
                    if mm.name in s.meas and self.entails(e == mm.elem(self, v)):
                        ok.add(('as', mm.name))
                poss[m.name] = ok if poss[m.name] is None else poss[m.name] & ok
        self.quiet += 1
        try:
            self.explore(run, pc0)
        finally:
            self.quiet -= 1
            self.restore(S0)
        out = {}
        for m in want:
            ok = poss[m.name] or set()
            if ('zero',) in ok:
                out[m.name] = z3.IntVal(0)
            elif ('one',) in ok:
                out[m.name] = s.n
            else:
                a = sorted(x for x in ok if x[0] == 'as')
                if a:
                    out[m.name] = s.meas[a[0][1]]
        return out


def is_event(sh):
    return sh.k == 'list' and sh.elem is not None and sh.elem.k == 'rec' and isinstance(sh.elem.cls, Ext) and sh.elem.cls.dotted.startswith('ev*')


def pname(p):
    return ''.join('.' + str(x[1] if isinstance(x, tuple) else x) for x in p)


class NeedLoop(Exception):
    pass


def has_fresh(a):
    return False


def immutable(o):
    return isinstance(o, PList) and o.kind == 'tuple' and False


def save(o):
    if isinstance(o, Frame):
        return {'locals': dict(o.locals), 'yields': o.yields, 'cur_exc': o.cur_exc}
    if isinstance(o, Obj):
        return {'attrs': dict(o.attrs), 'cls': o.cls, 'origin': o.origin}
    if isinstance(o, PDict):
        return {'d': dict(o.d), 'origin': getattr(o, 'origin', None)}
    if isinstance(o, PList):
        return {'segs': list(o.segs)}
    if isinstance(o, Iter):
        return {'lst': o.lst}
    if isinstance(o, SMap):
        return {'has': o.has, 'val': dict(o.val), 'ordr': o.ordr, 'nxt': o.nxt}
    if isinstance(o, PSet):
        return {'has': o.has}
    raise Unsupported('snapshot of %r' % (o,))


def load(o, c):
    for k, v in c.items():
        setattr(o, k, dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v)


def contents(o):
    if isinstance(o, Frame):
        return list(o.locals.items()) + [('<yields>', o.yields)]
    if isinstance(o, Obj):
        return list(o.attrs.items())
    if isinstance(o, PDict):
        return list(o.d.items())
    if isinstance(o, PList):
        return [(None, s.v) for s in o.segs if isinstance(s, El)]
    if isinstance(o, Iter):
        return [(None, o.lst)]
    return []
