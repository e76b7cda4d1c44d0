"""C06: restoring a bag.  One arbitrary file path is followed: is it there in the restored bag (ghost 'there'), and from which member
bag ('src', its place in the list of members)?"""
from vc import *
import models
import strs
from strs import uf

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
PROV = uf('prov*', I, B)            # the member bag at this place in the list has the file
PLACE = uf('place*', S, I)          # the place of a member name in the list
NAME = ('f', 'name')


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


# ---------------------------------------------------------------- the order in which members are used
def setup(e):
    e.jfree = True
    e.measures = []
    e.cands = [cands]
    M = e.models
    M['head*.deleted_paths'] = lambda e, a, kw: e.newobj(PList(list(e.skip.segs)))
    M['head*.member_bags'] = lambda e, a, kw: e.newobj(PList(list(e.members.segs)))
    M['head*.isfile'] = lambda e, a, kw: wrap_bool(e.agg)
    M['head*.open_text_file'] = lambda e, a, kw: e.newobj(Obj(Ext('in*'), {'path': a[1]}))
    M['in*.__enter__'] = M['out*.__enter__'] = lambda e, a, kw: a[0]
    M['in*.__exit__'] = M['in*.close'] = M['out*.__exit__'] = M['out*.close'] = lambda e, a, kw: None
    M['in*.read'] = lambda e, a, kw: e.call_log('read', a[0].attrs['path']) or e.content
    M['io.open'] = w_open
    M['out*.write'] = lambda e, a, kw: e.call_log('write', a[0].attrs['path'], a[1])
    for f in ('mkdir', 'makedirs', 'remove'):
        M['os.' + f] = lambda e, a, kw, f=f: e.call_log(f, a[0])
    M['shutil.rmtree'] = lambda e, a, kw: e.call_log('rmtree', a[0])
    M['os.path.exists'] = M['os.path.isdir'] = lambda e, a, kw: e.sbool('there')
    M['os.path.samefile'] = samefile
    M['restored*.isdir'] = lambda e, a, kw: e.ask_tagdir(a[1])
    for f in ('save', 'update_oxum', 'update_bag_size'):
        M['restored*.' + f] = lambda e, a, kw, f=f: e.call_log(f)
    M['info*.__contains__'] = lambda e, a, kw: wrap_bool(z3.Bool('has:%s*' % a[1]))
    M['info*.__delitem__'] = lambda e, a, kw: e.call_log('del', a[1])
    sm = e.summaries
    M['bagit.Bag'] = lambda e, a, kw: e.newobj(Obj(Ext('restored*'), {'path': a[0], 'info': e.newobj(Obj(Ext('info*'), {}))}))
    sm['access.extended.as_extended'] = lambda e, fn, a, kw: a[0]

    def provided(e, i, skip):
        """'restoring from a bag': the file is taken if the bag has it, it is not deleted and not there yet"""
        g = e.log
        new = z3.And(PROV(i), z3.Not(e.deleted), z3.Not(bool_term(g.attrs['there'])))
        src = z3.If(new, i, int_term(g.attrs['src']))
        e.setattr(g, 'there', SBool(z3.Or(bool_term(g.attrs['there']), new)))
        e.setattr(g, 'src', SInt(src))

    def restore_from(e, fn, a, kw):
        e.oblige('the head bag is used first', e.eqt(a[1], e.head.attrs['path']))
        given(e, a, kw, 2)
        provided(e, e.n - 1, e.skip)

    def restore_member(e, fn, a, kw):
        given(e, a, kw, 2)
        e.oblige('nothing is overwritten', kw.get('overwrite', a[4] if len(a) > 4 else False) is False)
        provided(e, PLACE(str_term(a[1])), e.skip)

    def given(e, a, kw, k):
        s = a[k] if len(a) > k else kw.get('skip')
        e.oblige('deleted paths are left out', isinstance(s, PList) and s.segs == e.skip.segs)

    def remove_deleted(e, fn, a, kw):
        e.oblige('all deleted paths are removed', isinstance(a[1], PList) and a[1].segs == e.skip.segs)
        g = e.log
        e.setattr(g, 'there', SBool(z3.And(bool_term(g.attrs['there']), z3.Not(e.deleted))))

    def restore_fetch(e, fn, a, kw):
        given(e, a, kw, 2)
        m = a[1] if len(a) > 1 else kw.get('members')
        e.oblige('the fetch list is made from all members, in order', m is None or isinstance(m, PList) and
                 (m.segs == e.members.segs or e.entails(z3.And(int_term(e.length(m)) == e.n, *[
                     e.at(m, z3.Int('any'), (NAME,)) == e.at(e.members, z3.Int('any'), (NAME,))]))))
        e.call_log('fetch')
    q = 'restore.BagRestorer.'
    sm[q + '_restore_from'], sm[q + 'restore_member'] = restore_from, restore_member
    sm[q + '_remove_deleted'], sm[q + 'restore_fetch'] = remove_deleted, restore_fetch


def call_log(e):
    def f(what, *a):
        e.path.__dict__.setdefault('calls', []).append((what,) + a)
    return f


def samefile(e, a, kw):
    r = z3.Bool('same*')
    return SBool(r)


def w_open(e, a, kw):
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if mode not in ('w', 'wt'):
        raise Unsupported('open(%r)' % (mode,))
    e.oblige('the file is written as UTF-8', str(kw.get('encoding', '')).lower().replace('_', '-') in ('utf-8', 'utf8'))
    return e.newobj(Obj(Ext('out*'), {'path': a[0]}))


def cands(e, st):
    """what is there comes from the last member used so far that has it"""
    out = []
    n = e.n
    if st.n is None:
        return out
    t, s_ = (e.log.uid, 'there'), (e.log.uid, 'src')
    for k in (0, 1, 2):
        def used(s, k=k):
            there, src = bool_term(s.read(t)), int_term(s.read(s_))
            low = n - k - s.idx if k < 2 else n - z3.If(s.idx < 1, z3.IntVal(1), s.idx)
            inr = z3.And(e.J >= 0, e.J < n)
            return z3.And(z3.Implies(there, z3.And(src >= 0, src >= low, src < n, PROV(src), z3.Not(e.deleted), z3.Implies(z3.And(inr, e.J > src), z3.Not(PROV(e.J))))),
                          z3.Implies(z3.And(z3.Not(there), z3.Not(e.deleted), inr, e.J >= low), z3.Not(PROV(e.J))))
        out.append(('used %d' % k, used))
    return out


def restorer(e, inplace):
    e.n = z3.Int('n*')
    e.members = e.slist(TRec({'name': TStr('nonempty', 'mname')}, cls=Ext('mem*')), 'members')
    e.assume(z3.And(int_term(e.length(e.members)) == e.n, e.n > 0))
    e.add_fact(e.members.segs[0], lambda j, v: PLACE(str_term(v.attrs['name'])) == j)
    e.skip = e.slist(TStr('nonempty'), 'skip')
    e.deleted, e.agg = z3.Bool('deleted*'), z3.Bool('agg*')
    e.content = e.sstr('content')
    name = e.at(e.members, e.n - 1, (NAME,))
    e.assume(PLACE(name) == e.n - 1)
    e.dest = e.sstr('dest', 'nonempty', 'noendslash')
    e.tagdir = e.sstr('tagdir', 'nonempty', 'noslash0', 'noendslash')
    e.call_log = call_log(e)
    e.ask_tagdir = lambda p: (e.oblige('the tag directory is looked for', e.eqt(p, e.tagdir)), wrap_bool(z3.Bool('tagdir there*')))[1]
    e.head = e.newobj(Obj(Ext('head*'), {'name': SStr([Atom(name, ['nonempty'])]), 'path': e.sstr('headpath', 'nonempty'), 'multibag_tag_dir': e.tagdir}))
    e.log = e.newobj(Obj(Ext('log*'), {'there': SBool(PROV(e.n - 1)) if inplace else False, 'src': SInt(e.n - 1)}))
    return e.obj('restore.BagRestorer', _head=e.head, _inplace=inplace, _destdir=e.dest, _cachedir=e.sstr('cache', 'nonempty'), _fetcher=None)


MBKEYS = ['Multibag-Version', 'Multibag-Reference', 'Multibag-Tag-Directory', 'Multibag-Head-Version', 'Multibag-Head-Deprecates']


def order(e, inplace):
    r = restorer(e, inplace)
    sizes, tags = e.choose(2) == 0, e.choose(2) == 0
    k, v = e.meth(r, 'restore', sizes, tags)
    e.oblige('returns', k == 'ret')
    if k != 'ret':
        return
    e.cover('all' if sizes and tags else 'part')
    there, src = bool_term(e.log.attrs['there']), int_term(e.log.attrs['src'])
    inr = z3.And(e.J >= 0, e.J < e.n)
    e.oblige('a deleted file is not there', z3.Implies(e.deleted, z3.Not(there)))
    e.oblige('a file of any member is there', z3.Implies(z3.And(inr, PROV(e.J), z3.Not(e.deleted)), there))
    e.oblige('no other file is there', z3.Implies(there, z3.And(src >= 0, src < e.n, PROV(src))))
    e.oblige('it is from the last member that has it', z3.Implies(z3.And(there, inr, e.J > src), z3.Not(PROV(e.J))))
    calls = e.path.__dict__.get('calls', [])
    e.oblige('the fetch list is restored', len([c for c in calls if c[0] == 'fetch']) == 1)
    bi = [c for c in calls if c[0] == 'write']
    reads = [c for c in calls if c[0] == 'read']
    bif = strs.concat(e.dest, '/bag-info.txt')
    e.oblige("the aggregation's bag-info is restored", z3.If(e.agg, z3.And(z3.BoolVal(len(bi) == 1 and len(reads) == 1), *(
        [e.eqt(bi[0][1], bif), e.eqt(bi[0][2], e.content), e.eqt(reads[0][1], strs.concat(e.tagdir, '/aggregation-info.txt'))] if bi and reads else [])),
        z3.BoolVal(not bi)))
    rm = [c for c in calls if c[0] in ('rmtree', 'remove')]
    e.oblige('nothing is removed but the tag directory', z3.And(*[e.eqt(c[1], strs.concat(strs.concat(e.dest, '/'), e.tagdir)) for c in rm] + [z3.BoolVal(tags or not rm)]))
    e.oblige('the tag directory is removed', z3.Implies(z3.And(z3.BoolVal(tags), z3.Bool('tagdir there*'), z3.Not(z3.Bool('same*'))), z3.BoolVal(len(rm) == 1)))
    for key in MBKEYS:
        gone = ('del', key) in calls
        e.oblige('the multibag metadata is removed, and no other', z3.And(z3.Bool('has:%s*' % key), z3.BoolVal(tags)) == z3.BoolVal(gone))
    e.oblige('the multibag metadata is removed, and no other', all(c[1] in MBKEYS for c in calls if c[0] == 'del'))
    seq = [c[0] for c in calls if c[0] in ('del', 'save', 'update_oxum', 'update_bag_size', 'rmtree', 'fetch')]
    last = lambda x: max([i for i, y in enumerate(seq) if y == x] or [-1])
    if tags:
        e.oblige('what is removed from the metadata is saved', last('save') > last('del') and last('save') > last('rmtree'))
    if sizes:
        e.oblige('the sizes are computed of the restored bag and saved', last('save') > last('update_oxum') > last('fetch') and
                 last('save') > last('update_bag_size') > last('fetch'))


@contract('restoring from the members', 'C06 C07', setup=setup, covers=('all', 'part'))
def separate(e):
    """every file that some member has and that is not deleted is there, from the last-listed member that has it, and no other"""
    order(e, False)


@contract('restoring in place', 'C06', setup=setup, covers=('all', 'part'))
def inplace(e):
    """the same for a restoration into the head bag"""
    order(e, True)


# ---------------------------------------------------------------- restoring from one bag
INSKIP = uf('inskip*', S, B)
FN = TStr('nonempty', 'fn', 'no:/')
ROOT = TOpt(TConst(''), TStr('nonempty', 'root', 'noslash0', 'noendslash'))
MANRE = r"^(tag)?manifest-(\w+)\.txt$"


def rel_parts(e, p):
    """(directory, name) of a path relative to a bag, None if it is not one"""
    ps = list(str_parts(p))
    if ps and isinstance(ps[0], str) and ps[0] == '/':
        ps = ps[1:]
    if len(ps) == 1 and isinstance(ps[0], Atom) and 'fn' in ps[0].tags:
        return '', mkstr(ps)
    if len(ps) == 3 and isinstance(ps[0], Atom) and 'root' in ps[0].tags and ps[1] == '/' and isinstance(ps[2], Atom) and 'fn' in ps[2].tags:
        return mkstr(ps[:1]), mkstr(ps[2:])
    return None


def in_dest(e, p):
    """the path relative to the destination"""
    ps = list(str_parts(p))
    if ps and isinstance(ps[0], Atom) and ps[0].t.eq(e.dest.parts[0].t):
        if len(ps) == 1:
            return ''
        if isinstance(ps[1], str) and ps[1].startswith('/'):
            return mkstr([ps[1][1:]] + ps[2:]) if ps[1][1:] else mkstr(ps[2:])
    return None


def is_kr(e, root):
    if isinstance(root, str) or isinstance(e.KR, str):
        return z3.BoolVal(isinstance(root, str) and isinstance(e.KR, str) and root == e.KR)
    return str_term(root) == str_term(e.KR)


def is_k(e, p):
    q = rel_parts(e, p)
    if q is None:
        return None
    return z3.And(is_kr(e, q[0]), str_term(q[1]) == e.KF)


def from_setup(top):
    def setup(e):
        e.KF = z3.String('KF*')
        e.KR = '' if top else SStr([Atom(z3.String('KR*'), ['nonempty', 'root', 'noslash0', 'noendslash'])])
        e.KT = e.KF if top else z3.Concat(str_term(e.KR), z3.StringVal('/'), e.KF)
        e.jfree = True
        e.merge = True
        isfn = lambda sh: sh.k == 'str' and 'fn' in sh.tags
        row = lambda sh: sh.k == 'tuple' and len(sh.els) == 3
        kf = Measure('kf', isfn, lambda e, v: b2i(str_term(v) == e.KF), unit=True)
        e.measures = [kf, Measure('sr', row, lambda e, v: z3.If(is_kr(e, v[0]), e.measure(v[2], 'kf'), z3.IntVal(0))),
                      Measure('sb', lambda sh: sh.k == 'str' and 'skip' in sh.tags, lambda e, v: b2i(
                          z3.BoolVal(False) if top else z3.PrefixOf(z3.Concat(str_term(v), z3.StringVal('/')), str_term(e.KR))), unit=True),
                      Measure('up', lambda sh: sh.k == 'str' and 'fn' not in sh.tags and 'skip' not in sh.tags, up, unit=True)]
        e.hooks = [from_cases]
        e.member_hooks = [in_skip]
        e.cands = [from_cands]
        e.lean = ['<=len', '==len(', '+len(', '<=entry']
        M = e.models
        M['os.path.exists'] = dest_exists
        M['bagit.Bag'] = lambda e, a, kw: e.src
        M['os.path.abspath'] = lambda e, a, kw: SStr([Atom(uf('abs*', S, S)(str_term(a[0])), ['nonempty'])])
        M['os.stat'] = lambda e, a, kw: e.newobj(Obj(Builtin('object'), {'st_mtime': e.fresh(TReal, 'mtime')}))
        M['os.utime'] = lambda e, a, kw: None
        M['re.Pattern.match'] = man_match
        M['time.time'] = lambda e, a, kw: e.fresh(TReal, 'now')
        M['os.makedirs'] = M['os.mkdir'] = dest_mkdir
        M['os.remove'] = dest_remove
        M['io.open'] = dest_touch
        M['touched*.close'] = M['touched*.__exit__'] = lambda e, a, kw: None
        M['touched*.__enter__'] = lambda e, a, kw: a[0]
        M['src*.walk'] = lambda e, a, kw: e.newobj(Iter(e.newobj(PList(list(e.walk.segs)))))
        M['src*.replicate'] = src_replicate
        M['src*.timesfor'] = lambda e, a, kw: e.newobj(Obj(Ext('times*'), {'mtime': e.fresh(TReal, 'mtime')})) if e.choose(2) else None
        sm = e.summaries
        sm['access.extended.as_extended'] = lambda e, fn, a, kw: a[0]
        sm['access.bagit.open_bag'] = sm['ReadOnlyBag'] = sm['Bag'] = lambda e, fn, a, kw: e.src
        sm['restore.BagRestorer._create_dest_bag'] = lambda e, fn, a, kw: None
        sm['restore.BagRestorer._update_manifests'] = merging
    return setup


MAN = uf('manifest*', S, B)
_same = {}


def man_match(e, a, kw):
    """a pattern that matches the same names as MANRE: an unknown property of the name"""
    pat = a[0].pattern
    if isinstance(a[1], str):
        return models.mk_match(e, pat, a[1], 'match')
    if pat not in _same:
        x = SStr([Atom(z3.String('x*'))])
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(models.regex_term(e, pat, x, 'match') != models.regex_term(e, MANRE, x, 'match'))
        _same[pat] = pat == MANRE or s.check() == z3.unsat
    if not _same[pat]:
        raise Unsupported('the pattern %s' % pat)
    return e.newobj(Obj(Ext('re.Match'))) if e.decide(MAN(str_term(a[1]))) else None


def up(e, v):
    q = is_k(e, v)
    return b2i(str_term(v) == e.KT if q is None else q)


def from_cases(e, seg, j, v):
    if seg.shape.k == 'tuple' and len(seg.shape.els) == 3:
        e.row = v
        e.decide(is_kr(e, v[0]))
        if e.entails(is_kr(e, v[0])) and v[1].segs:
            # a path is a file or a directory, not both
            e.assume(e.measure(v[1], 'kf') == 0)
    elif seg.shape.k == 'str' and 'fn' in seg.shape.tags:
        e.decide(str_term(v) == e.KF)
    elif seg.shape.k == 'str' and 'skip' in seg.shape.tags and not isinstance(e.KR, str):
        e.decide(z3.PrefixOf(z3.Concat(str_term(v), z3.StringVal('/')), str_term(e.KR)))


def in_skip(e, seg, x):
    if 'skip' not in seg.shape.tags if seg.shape.k == 'str' else True:
        return None
    q = is_k(e, x)
    if q is not None:
        return INSKIP(e.KT) if e.decide(q) else z3.Bool(fresh_name('skipped'))
    if isinstance(x, str) and x == '':
        return z3.BoolVal(False)
    return INSKIP(str_term(e.KR)) if not isinstance(e.KR, str) and e.decide(str_term(x) == str_term(e.KR)) else z3.Bool(fresh_name('skipped'))


def g(e, k):
    return e.log.attrs[k]


def dest_exists(e, a, kw):
    p = in_dest(e, a[0])
    q = is_k(e, p) if p is not None and p != '' else None
    if q is not None and e.decide(q):
        return SBool(bool_term(g(e, 'there')))
    return SBool(z3.Bool(fresh_name('exists')))


def made(e, p, what):
    q = in_dest(e, p)
    e.oblige('nothing but the destination is changed', z3.BoolVal(True) if q is not None else z3.PrefixOf(str_term(e.dest), str_term(p)))
    if q is None:
        if e.entails(z3.PrefixOf(str_term(e.dest), str_term(p))):
            raise Unsupported('%s elsewhere' % what)
        return False
    k = is_k(e, q)
    return k is not None and e.decide(k)


def dest_mkdir(e, a, kw):
    if made(e, a[0], 'mkdir'):
        e.setattr(e.log, 'there', True)


def dest_remove(e, a, kw):
    if made(e, a[0], 'remove'):
        e.oblige('a file is removed to be replaced only', z3.And(z3.BoolVal(e.overwrite), e.fine))
        e.setattr(e.log, 'there', False)


def dest_touch(e, a, kw):
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if mode not in ('a', 'at', 'ab'):
        raise Unsupported('open(%r)' % (mode,))
    if made(e, a[0], 'open'):
        e.setattr(e.log, 'there', True)
    return e.newobj(Obj(Ext('touched*'), {}))


def src_replicate(e, a, kw):
    e.oblige('copied to the destination', e.eqt(a[2], e.dest))
    q = is_k(e, a[1])
    if q is None:
        raise Unsupported('the path to copy')
    if e.decide(q):
        e.oblige('nothing is overwritten', z3.Not(bool_term(g(e, 'there'))))
        e.setattr(e.log, 'there', True)
        e.setattr(e.log, 'cp', SInt(int_term(g(e, 'cp')) + 1))


def merging(e, fn, a, kw):
    e.oblige('the manifests are updated for the files copied', e.measure(a[2], 'up') == int_term(g(e, 'cp')) if a[2].segs else int_term(g(e, 'cp')) == 0)
    e.oblige('and the bag they are from', a[1] is e.src)
    s = a[3] if len(a) > 3 else kw.get('skip')
    e.oblige('deleted paths are left out', isinstance(s, PList) and (s.segs == e.skip.segs if e.skip is not None else not s.segs))
    e.setattr(e.log, 'merged', True)


def from_cands(e, st):
    out = []
    t, c = (e.log.uid, 'there'), (e.log.uid, 'cp')
    for m, ok in (('sr', e.fine), ('kf', e.fine_f)):
        if st.seg is not None and m in st.seg.meas:
            t0, c0 = bool_term(st.read(t)) if False else None, None

            def now(s, m=m, ok=ok):
                x = z3.And(s.seg.prefix(m)(s.idx) > 0, ok)
                th0, cp0 = e.entry0(st)
                return z3.And(bool_term(s.read(t)) == z3.Or(th0, x),
                              int_term(s.read(c)) == cp0 + (z3.If(z3.And(x, z3.Not(e.man)), s.seg.prefix(m)(s.idx), z3.IntVal(0)) if e.overwrite else
                                                            b2i(z3.And(x, z3.Not(th0), z3.Not(e.man)))))
            out.append(('taken ' + m, now))
    return out


def entry0(e):
    def f(st):
        x = st.entry
        th, cp = x.get((e.log.uid, 'there')), x.get((e.log.uid, 'cp'))
        return (th[1] if th is not None else bool_term(g(e, 'there'))), (cp[1] if cp is not None else int_term(g(e, 'cp')))
    return f


def restoring(e, overwrite):
    e.overwrite = overwrite
    e.entry0 = entry0(e)
    e.walk = e.slist(TTuple(ROOT, TList(FN), TList(FN)), 'walk')
    sr = e.measure(e.walk, 'sr')
    e.assume(sr <= 1)
    e.dest = e.sstr('dest', 'nonempty', 'noendslash')
    has = e.sbool('entries')
    e.src = e.newobj(Obj(Ext('src*'), {'entries': has}))
    e.skip = e.slist(TStr('nonempty', 'skip'), 'skip') if e.choose(2) == 0 else None
    deleted = z3.BoolVal(False) if e.skip is None else \
        INSKIP(e.KT) if isinstance(e.KR, str) else z3.Or(INSKIP(e.KT), INSKIP(str_term(e.KR)), e.measure(e.skip, 'sb') > 0)
    e.fine = z3.Not(deleted)
    e.fine_f = z3.BoolVal(True) if e.skip is None else z3.Not(INSKIP(e.KT))
    e.man = MAN(e.KF) if isinstance(e.KR, str) else z3.BoolVal(False)
    there0 = z3.Bool('there0*')
    e.log = e.newobj(Obj(Ext('log*'), {'there': SBool(there0), 'cp': 0, 'merged': False}))
    r = e.obj('restore.BagRestorer', _destdir=e.dest, _cachedir=e.sstr('cache', 'nonempty'), _fetcher=None)
    path = e.sstr('srcpath', 'nonempty')
    k, v = e.meth(r, '_restore_from', path, e.skip, overwrite)
    e.oblige('returns', k == 'ret')
    if k != 'ret':
        return
    there, cp = bool_term(g(e, 'there')), int_term(g(e, 'cp'))
    if e.decide(uf('abs*', S, S)(str_term(path)) == str_term(e.dest)):
        e.cover('itself')
        e.oblige('nothing is done with the destination itself', z3.And(there == there0, cp == 0, z3.BoolVal(g(e, 'merged') is False)))
        return
    e.cover('restored')
    e.oblige('the files are copied, not linked', z3.Not(bool_term(e.truth(e.src.attrs.get('replicate_with_hardlink', False)))))
    use = z3.And(sr > 0, e.fine)
    e.oblige('the file is there if it was or is provided and not deleted', there == z3.Or(there0, use))
    e.oblige('it is copied if it is provided, not deleted and not there yet, and not a manifest',
             cp == b2i(z3.And(use, z3.Not(e.man), z3.BoolVal(True) if overwrite else z3.Not(there0))))
    if g(e, 'merged') is not True:
        e.oblige('the manifests are left alone only if nothing is to be listed', z3.And(cp == 0, z3.Not(bool_term(has))))


for _top in (True, False):
    for _ow in (False, True):
        def f(e, ow=_ow):
            """for any file path: it is copied to the destination exactly if the bag has it, neither it nor a directory it is in is deleted,
            and it is not there yet (or is to be replaced); manifests of the bag are not copied but merged, for exactly the files copied"""
            restoring(e, ow)
        contract('restoring %s from a bag%s' % ('a file at the top' if _top else 'a file below a directory', ', replacing' if _ow else ''), 'C05 C06 C07' if not _ow else 'C05 C06',
                 setup=from_setup(_top), covers=('itself', 'restored'), seconds=300)(f)
