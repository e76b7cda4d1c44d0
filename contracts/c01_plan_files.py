"""C01, C02: the files a plan is made from: what the splitters take from the source bag, what a plan requires, and the plan as a whole."""
from vc import *
import models
import strs
from strs import uf
from ct_c01_packing import setup as setup_packing, finfo_shape, is_finfo, man_shape, rel, b2i, SZ, mcount
from ct_c01_plan import CQ

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
RESERVED = uf('reserved*', S, B)
SPECIALS = (r'^/bagit\.txt$', r'^/bag-info\.txt$', r'^/fetch\.txt$', r'^/(tag)?manifest-(\w+)\.txt$')


SPEC = [uf('special%d*' % i, S, B) for i in range(len(SPECIALS))]
_class = {}


def special(e, p):
    """a BagIt special file at the root of the bag"""
    return z3.Or(*[f(p) for f in SPEC])


def matcher(slash):
    """a pattern that matches the same texts as the i-th of SPECIALS: an unknown property of the text"""
    def match(e, a, kw):
        pat = a[0].pattern
        if isinstance(a[1], str):
            return models.mk_match(e, pat, a[1], 'match')
        if (pat, slash) not in _class:
            x = SStr([Atom(z3.String('x*'))])
            _class[pat, slash] = None
            for i, r in enumerate(SPECIALS):
                r = r if slash else r.replace('^/', '^')
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(models.regex_term(e, pat, x, 'match') != models.regex_term(e, r, x, 'match'))
                if pat == r or s.check() == z3.unsat:
                    _class[pat, slash] = i
                    break
        i = _class[pat, slash]
        if i is None:
            raise Unsupported('the pattern %s' % pat)
        return e.newobj(Obj(Ext('re.Match'))) if e.decide(SPEC[i](str_term(a[1]))) else None
    return match


# ---------------------------------------------------------------- the files of the source
def is_entry(sh):
    return sh.k == 'tuple' and len(sh.els) == 2 and sh.els[1].k == 'rec' and 'is_dir' in sh.els[1].fields


def files_setup(e):
    e.Q = z3.String('Q*')
    want = lambda v: z3.And(rel(v[0]) == e.Q, z3.Not(bool_term(v[1].attrs['is_dir'])), z3.Not(special(e, str_term(v[0]))),
                            z3.Not(RESERVED(str_term(v[0]))))
    e.measures = [Measure('want', is_entry, lambda e, v: b2i(want(v)), unit=True),
                  Measure('qf', is_finfo, lambda e, v: b2i(rel(v.d['path']) == e.Q), unit=True),
                  Measure('qs', is_finfo, lambda e, v: b2i(z3.And(rel(v.d['path']) == e.Q, int_term(v.d['size']) == SZ(rel(v.d['path'])))), unit=True)]
    e.hooks = [entry]
    e.member_hooks = [lambda e, seg, x: RESERVED(str_term(x)) if 'forhead' in seg.tags else None]
    e.sort_hooks = [by_size]
    e.models['re.Pattern.match'] = matcher(True)
    e.models['walk*.info'] = lambda e, a, kw: e.newobj(Iter(e.newobj(PList(list(e.entries.segs)))))


def entry(e, seg, j, v):
    if is_entry(seg.shape):
        e.assume(int_term(v[1].attrs['size']) == SZ(rel(v[0])))


def by_size(e, lst, sh, key, reverse):
    """descending by size: for any two elements in this order by the comparison, the first is not smaller"""
    if not is_finfo(sh) or key is None or e.truthy(reverse):
        return None
    a, b = e.fresh(sh, 'a'), e.fresh(sh, 'b')
    if isinstance(key, models.CmpKey):
        r = e.call(key.f, [a, b], {})
        c = int_term(r) <= 0
    else:
        ka, kb = e.call(key, [a], {}), e.call(key, [b], {})
        if isinstance(ka, tuple):
            ka, kb = ka[0], kb[0]
        c = int_term(ka) <= int_term(kb)
    ok = z3.Implies(c, int_term(a.d['size']) >= int_term(b.d['size']))
    e.oblige('the biggest first', ok)
    return 'order:desc:size'


def splitter(e, cls):
    fh = e.slist(TStr('nonempty'), 'forhead', ('forhead',))
    return e.obj('split.' + cls, maxsz=e.sint('maxsize'), tsz=e.sint('target'), forhead=fh)


def source(e):
    e.entries = e.slist(TTuple(TStr('nonempty', 'slash', 'pre:/'), TRec({'is_dir': TBool, 'size': TInt}, cls=Ext('info*'))), 'entries')
    ext = lambda n, **kw: e.newobj(Obj(Ext(n), kw))
    return ext('robag*', _root=ext('rootp*', fs=ext('fs*', walk=ext('walk*'))))


for _c in ('WellPackedSplitter', 'NeighborlySplitter'):
    def f(e, c=_c):
        """each file of the bag that is neither special nor reserved is taken as often as the bag lists it, with its size, the biggest
        first, and no other"""
        sp, bag = splitter(e, c), source(e)
        k, r = e.meth(sp, '_sorted_files', bag)
        e.oblige('returns', k == 'ret')
        if k != 'ret':
            return
        e.cover()
        want = e.measure(e.entries, 'want')
        got = lambda m: e.measure(r, m) if r.segs else z3.IntVal(0)
        e.oblige('each file that is neither special nor reserved, and no other', got('qf') == want)
        e.oblige('with its size', got('qs') == want)
    contract('the files to plan for (%s)' % _c, 'C01 C02', setup=files_setup)(f)


# ---------------------------------------------------------------- what a plan requires
FN = TStr('nonempty', 'fn', 'no:/')
ROOT = TOpt(TConst(''), TStr('nonempty', 'root', 'noslash0', 'noendslash'))


def is_row(sh):
    return sh.k == 'tuple' and len(sh.els) == 3


def in_root(v):
    return isinstance(v[0], str)


def req_setup(what):
    def setup(e):
        e.jfree = True
        e.lean = ['<=len', '==len(', '+len(', '<=entry']
        e.KF, e.KR = z3.String('KF*'), z3.String('KR*')
        kf = Measure('kf', lambda sh: sh.k == 'str' and 'fn' in sh.tags, lambda e, v: b2i(str_term(v) == e.KF), unit=True)

        def row(e, v):
            if what == 'top':
                return e.measure(v[2], 'kf') if in_root(v) else z3.IntVal(0)
            if in_root(v):
                return z3.IntVal(0)
            here = str_term(v[0]) == e.KR
            if what == 'dir':
                return b2i(z3.And(here, int_term(e.length(v[1])) == 0, int_term(e.length(v[2])) == 0))
            return z3.If(here, e.measure(v[2], 'kf'), z3.IntVal(0))

        def hit(e, v):
            ps = str_parts(v)
            if isinstance(v, str):
                return z3.IntVal(0)
            if len(ps) == 1 and isinstance(ps[0], Atom) and 'fn' in ps[0].tags:
                return b2i(str_term(v) == e.KF) if what == 'top' else z3.IntVal(0)
            if len(ps) == 1 and isinstance(ps[0], Atom) and 'root' in ps[0].tags:
                return b2i(str_term(v) == e.KR) if what == 'dir' else z3.IntVal(0)
            if len(ps) == 3 and ps[1] == '/' and isinstance(ps[0], Atom) and 'root' in ps[0].tags and isinstance(ps[2], Atom) and 'fn' in ps[2].tags:
                return b2i(z3.And(ps[0].t == e.KR, ps[2].t == e.KF)) if what == 'below' else z3.IntVal(0)
            return b2i(str_term(v) == {'top': e.KF, 'dir': e.KR, 'below': z3.Concat(e.KR, z3.StringVal('/'), e.KF)}[what])
        e.measures = [kf, Measure('row', is_row, row), Measure('hit', lambda sh: sh.k == 'str', hit, unit=True)]
        e.hooks = [rcases(what)]
        e.cands = [req_cands(what)]
        e.models['re.Pattern.match'] = matcher(False)
        e.models['bag*.walk'] = lambda e, a, kw: e.newobj(Iter(e.newobj(PList(list(e.walk.segs)))))
    return setup


def rcases(what):
    def f(e, seg, j, v):
        if is_row(seg.shape):
            if not in_root(v) and what != 'top':
                e.decide(str_term(v[0]) == e.KR)
        elif seg.shape.k == 'str' and 'fn' in seg.shape.tags:
            e.decide(str_term(v) == e.KF)
    return f


def req_cands(what):
    def gen(e, st):
        out = []
        if st.seg is None:
            return out
        for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
            if x[0] != 'list' or 'hit' not in x[1]:
                continue
            for m in ('row', 'kf'):
                if m in st.seg.meas:
                    def count(s, l=l, x=x, m=m):
                        v = s.summ(s.read(l))
                        h = v[1].get('hit')
                        if h is None:
                            return z3.BoolVal(not v[1].get('segs*'))
                        p = s.seg.prefix(m)(s.idx)
                        return h == x[1]['hit'] + (z3.If(e.SPEC, z3.IntVal(0), p) if what == 'top' else p)
                    out.append(('required %s %d' % (m, len(out)), count))
        return out
    return gen


def required(e, what):
    e.walk = e.slist(TTuple(ROOT, TList(FN), TList(FN)), 'walk')
    e.SPEC = special(e, e.KF)
    mixin = e.get('access.extended.ExtendedReadMixin')
    o = e.newobj(Obj(Ext('bag*'), {}))
    k, r = e.do(mixin.lookup('nonstandard')[1], o)
    e.oblige('returns', k == 'ret')
    if k != 'ret':
        return
    e.cover()
    l = e.to_list(r)
    got = e.measure(l, 'hit') if l.segs else z3.IntVal(0)
    n = e.measure(e.walk, 'row')
    if what == 'top':
        n = z3.If(e.SPEC, z3.IntVal(0), n)
    e.oblige({'top': 'each file at the root that is not special, and no other', 'below': 'each file below a directory, and no other',
              'dir': 'each empty directory, and no other'}[what], got == n)


for _w, _t in (('top', 'a file at the root'), ('below', 'a file below a directory'), ('dir', 'a directory')):
    def f(e, w=_w):
        """what a plan has to place: each file of the bag that is not a special file at its root, and each empty directory, as often as
        walking the bag finds it, and nothing else"""
        required(e, w)
    contract('what a plan has to place: ' + _t, 'C01', setup=req_setup(_w))(f)


# ---------------------------------------------------------------- the plan as a whole
def whole_setup(e):
    setup_packing(e)
    e.FILES, e.DIRS = z3.Int('planned for*'), z3.Int('also required*')
    e.models['progenitor*.sizeof'] = lambda e, a, kw: SInt(SZ(str_term(a[1])))
    sm = e.summaries
    e.member_hooks = []

    def ro(e, fn, a, kw):
        e.oblige('the bag given is planned for', e.eqt(a[0], e.bagpath))
        return e.bag
    sm['ReadOnlyBag'] = sm['Bag'] = sm['open_bag'] = ro

    def files(e, fn, a, kw):
        """'the files to plan for'"""
        l = e.slist(finfo_shape(), 'finfos', ('order:desc:size',))
        e.assume(l.segs[0].meas['qf'] == e.FILES)
        e.finfos = l
        return l

    def pack(e, fn, a, kw):
        """'well-packed plan', 'neighborly plan'"""
        sp, fin, plan = a
        e.oblige('the files found are planned for', fin is e.finfos and bool(fin.segs))
        new = e.slist(man_shape(), 'packed')
        e.assume(new.segs[0].meas['qm'] == e.FILES)
        e.assume(new.segs[0].meas['bad'] == 0)
        l = plan.attrs['_manifests']
        e.oblige('a new plan is filled', isinstance(l, PList) and not l.segs)
        e.wr(l)
        l.segs = list(new.segs)
        e.packed = int_term(e.length(new))
        return plan

    def missing(e, fn, a, kw):
        """'what is missing from a plan'"""
        have = a[0].attrs['_manifests']
        t = e.measure(have, 'qm') if have.segs else z3.IntVal(0)
        l = e.slist(TStr('nonempty', 'fpath'), 'missing')
        e.assume(e.measure(l, 'q') == z3.If(t > 0, z3.IntVal(0), e.FILES + e.DIRS))
        return e.newobj(Iter(e.newobj(PList(list(l.segs)))))
    for c in ('WellPackedSplitter', 'NeighborlySplitter'):
        sm['split.%s._sorted_files' % c] = files
        sm['split.%s._apply_algorithm' % c] = pack
    sm['split.SplitPlan.missing'] = missing


for _c in ('WellPackedSplitter', 'NeighborlySplitter'):
    def f(e, c=_c):
        """for any path: it is planned for as often as the bag has it as a file or as an empty directory; if it is reserved, or an empty
        directory, for the last bag only; the bags before it keep the limits"""
        sp = splitter(e, c)
        e.bagpath = e.sstr('bagpath', 'nonempty')
        e.bag = e.newobj(Obj(Ext('progenitor*'), {'name': e.sstr('bagname', 'nonempty')}))
        e.summaries['split.SplitPlan.__init__'] = newplan
        e.assume(z3.And(e.FILES >= 0, e.DIRS >= 0))
        k, r = e.meth(sp, '_create_plan', e.bagpath)
        e.oblige('returns', k == 'ret')
        if k != 'ret':
            return
        l = r.attrs['_manifests']
        got = e.measure(l, 'qm') if l.segs else z3.IntVal(0)
        e.oblige('each file that is not reserved is planned for as often as it is there', z3.Implies(e.FILES > 0, got == e.FILES))
        e.oblige('each other file, and each empty directory, as well', z3.Implies(e.FILES == 0, got == e.DIRS))
        n = int_term(e.length(l))
        e.cover()
        if l.segs:
            for s in l.segs:
                if isinstance(s, SymSeg) and 'bad' in s.meas:
                    e.oblige('the bags packed keep the limits', s.meas['bad'] == 0)
            e.oblige('a bag is added after those packed only', z3.And(n >= e.packed, n <= e.packed + 1))
            if e.decide(e.FILES == 0):
                t = z3.IntVal(0)
                for s in l.segs:
                    if isinstance(s, SymSeg):
                        t = t + s.meas['qm']
                e.oblige('what is reserved, and each empty directory, is in the bag added only', t == 0)
    contract('the plan made (%s)' % _c, 'C01 C02', setup=whole_setup)(f)


def newplan(e, fn, a, kw):
    """a new plan for the bag: no bags yet"""
    o = a[0]
    e.oblige('the plan is for the bag', a[1] is e.bag)
    for k, v in (('progenitor', e.bag), ('_manifests', e.mk([])), ('head_version', '1'), ('_deprecates', e.mk([]))):
        e.setattr(o, k, v)


# ---------------------------------------------------------------- reservations, directories, default names
def res_cands(e, st):
    out = []
    if st.n is None:
        return out
    for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
        sh = st.H[l]
        if x[0] == 'list' and sh.k == 'list' and sh.elem is not None and sh.elem.k == 'str':
            def slashed(s, l=l):
                v = s.summ(s.read(l))
                if not v[1]['segs*']:
                    return z3.BoolVal(True)
                t = e.leaf_at(v[1]['segs*'], (), e.J)
                return z3.Implies(z3.And(e.J >= 0, e.J < v[1]['n']), t == z3.If(e.J < s.idx, with_slash(e.at(e.given, e.J)), e.at(e.given, e.J)))
            out.append(('slashed %d' % len(out), slashed))
    return out


def with_slash(t):
    return z3.If(z3.PrefixOf(z3.StringVal('/'), t), t, z3.Concat(z3.StringVal('/'), t))


def res_setup(e):
    e.measures = []
    e.cands = [res_cands]


for _c in ('WellPackedSplitter', 'NeighborlySplitter'):
    def f(e, c=_c):
        """the reserved paths as the bag's walk gives them, one for each given; the list given stays as it is; the limits are those given"""
        e.given = e.slist(TStr('nonempty'), 'reserve')
        none = e.choose(2) == 0
        arg = None if none else e.newobj(PList(list(e.given.segs)))
        o = e.newobj(Obj(e.get('split.' + c), {}))
        mx, tg = e.sint('maxsize'), e.sint('target')
        notarget = e.choose(2) == 0
        k, r = e.do(o.cls.lookup('__init__')[1], o, mx, None if notarget else tg, arg)
        e.oblige('returns', k == 'ret')
        if k != 'ret':
            return
        e.oblige('the limit given', int_term(o.attrs['maxsz']) == mx.t)
        e.oblige('the target given, or the limit', int_term(o.attrs['tsz']) == (mx.t if notarget else z3.If(tg.t == 0, mx.t, tg.t)))
        l = o.attrs['forhead']
        if none:
            e.cover('none')
            e.oblige('nothing reserved', int_term(e.length(l)) == 0)
            return
        e.cover('some')
        n = int_term(e.length(e.given))
        e.oblige('as many as given', int_term(e.length(l)) == n)
        inr = z3.And(e.J >= 0, e.J < n)
        if l.segs:
            e.oblige('each as the paths of the bag are given', z3.Implies(inr, e.at(l, e.J) == with_slash(e.at(e.given, e.J))))
        e.oblige('the list given stays as it is', z3.And(z3.BoolVal(l is not arg), int_term(e.length(arg)) == n, z3.Implies(inr, e.at(arg, e.J) == e.at(e.given, e.J))))
    contract('the reservations (%s)' % _c, 'C02', setup=res_setup, covers=('none', 'some'))(f)


def name_setup(e):
    e.measures = []
    e.cands = [name_cands]
    e.models['os.path.splitext'] = lambda e, a, kw: (e.sstr('stem'), e.sstr('ext'))
    e.models['os.path.basename'] = lambda e, a, kw: e.sstr('base')
    for c in ('WellPackedSplitter', 'NeighborlySplitter'):
        e.summaries['split.%s._create_plan' % c] = lambda e, fn, a, kw: e.plan


def name_at(e, j):
    return z3.Concat(str_term(e.basis), z3.StringVal('_'), uf('int2str', I, S)(j + 1), z3.StringVal('.mbag'))


def name_cands(e, st):
    out = []
    n = int_term(e.length(e.mans))
    out.append(('named', lambda s: z3.Implies(z3.And(e.J >= 0, e.J < n, e.J < s.idx), e.at(e.mans, e.J, (('f', 'name'),)) == name_at(e, e.J))))
    return out


@contract('the names given by default', 'C01', setup=name_setup)
def names(e):
    """given a base name, the J-th bag of the plan is named after it and its place, counted from 1 (so that no two have the same name)"""
    e.mans = e.slist(TRec({'contents': TList(TStr('fpath')), 'totalsize': TInt, 'name': TStr()}), 'mans')
    n = int_term(e.length(e.mans))
    old = e.newobj(PList(list(e.mans.segs)))
    e.plan = e.obj('split.SplitPlan', progenitor=None, _manifests=e.mans, head_version='1', _deprecates=e.mk([]))
    e.basis = e.sstr('basis', 'nonempty')
    k, r = e.meth(splitter(e, 'WellPackedSplitter'), 'plan', e.sstr('bagpath', 'nonempty'), e.basis)
    e.oblige('returns', k == 'ret')
    if k != 'ret':
        return
    e.cover()
    e.oblige('the plan made', r is e.plan)
    inr = z3.And(e.J >= 0, e.J < n)
    e.oblige('each bag is named by the base name and its place', z3.Implies(inr, e.at(e.mans, e.J, (('f', 'name'),)) == name_at(e, e.J)))
    for p in (('f', 'totalsize'),), (('f', 'contents'), 'n'):
        e.oblige('nothing else changes', z3.Implies(inr, e.at(e.mans, e.J, p) == e.at(old, e.J, p)))


@contract('the directory of a file', 'C01 C02')
def dirpath(e):
    """ends in a slash; depends on the path only"""
    sp = e.obj('split.NeighborlySplitter', maxsz=e.sint('m'), tsz=e.sint('t'), forhead=e.mk([]))
    p = SStr(['/', Atom(z3.String('path*'), ['nonempty', 'noslash0', 'noendslash'])])
    k, r = e.meth(sp, '_dirpath', p)
    e.oblige('returns', k == 'ret')
    e.cover()
    e.oblige('ends in a slash', z3.SuffixOf(z3.StringVal('/'), str_term(r)))
