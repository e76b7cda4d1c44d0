"""C08: amending an aggregation.  The edits of the new head bag are followed for one arbitrary path (file lookup, deletion marks) and
as a sequence (members); what each edit does to the head bag's data is what the contracts of C10 say of it."""
from vc import *
import strs
from strs import uf
from interp import StarSeg

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
PATH = TStr('nonempty', 'path', 'noslash0')
NAMEOF, PAY, HASP = uf('nameof*', S, S), uf('pay*', S, B), uf('hasp*', S, B)    # of a bag given by its path: name, payload file K, path K
BPATH = TStr('nonempty', 'bagpath')
MEM = TRec({'name': TStr('nonempty'), 'uri': TStr('uri'), 'comment': TStr('comment'), 'info': TStr('info')}, cls=Ext('mem*'))


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def g(e, k):
    return e.log.attrs[k]


def setup(e):
    e.jfree = True
    e.merge = True
    pair = lambda sh: sh.k == 'tuple' and len(sh.els) == 2
    kd = Measure('kd', lambda sh: sh.k == 'str' and 'path' in sh.tags, lambda e, v: b2i(str_term(v) == e.K), unit=True)
    kd.witness = lambda e: e.K
    e.measures = [kd, Measure('ex', lambda sh: sh.k == 'str' and 'bagpath' in sh.tags, lambda e, v: b2i(HASP(str_term(v))), unit=True)]
    e.hooks = [cases]
    e.member_hooks = [is_in]
    e.cands = [cands]
    M = e.models
    M['old*.is_head_multibag'] = lambda e, a, kw: e.ishead
    M['old*.iter_member_bags'] = lambda e, a, kw: e.newobj(Iter(e.newobj(PList(list(e.members.segs)))))
    M['old*.member_bags'] = lambda e, a, kw: e.newobj(PList(list(e.members.segs)))
    M['old*.iter_file_lookup'] = lambda e, a, kw: e.newobj(Iter(e.newobj(PList(list(e.lookup.segs)))))
    M['old*.iter_deleted'] = lambda e, a, kw: e.newobj(Iter(e.newobj(PList(list(e.olddel.segs)))))
    M['old*.deleted_paths'] = lambda e, a, kw: e.newobj(PList(list(e.olddel.segs)))
    M['os.path.isfile'] = M['os.path.exists'] = is_there
    M['os.remove'] = removed
    for b in ('old*', 'bag*', 'nh*'):
        M[b + '.exists'] = provides
    N = lambda f, h: M.__setitem__('nh*.' + f, h)
    N('ensure_tagdir', lambda e, a, kw: None)
    N('member_bags', reread)
    N('add_member_bag', add_member)
    N('clear_file_lookup', lambda e, a, kw: (e.setattr(e.log, 'has', False), e.setattr(e.log, 'lu*', True)) and None)
    N('add_file_lookup', add_lookup)
    N('update_for_member', update_for)
    N('deleted_paths', deleted_paths)
    N('set_deleted', lambda e, a, kw: mark(e, a[1], True))
    N('unset_deleted', lambda e, a, kw: mark(e, a[1], False))
    N('save_member_bags', lambda e, a, kw: e.setattr(e.log, 'mem*', False))
    N('save_file_lookup', lambda e, a, kw: e.setattr(e.log, 'lu*', False))
    N('save_deleted', lambda e, a, kw: e.setattr(e.log, 'del*', False))
    N('update_info', update_info)
    M['get:nh*.profile_version'] = lambda e, a, kw: e.getitem(e.newinfo, 'Multibag-Version')
    sm = e.summaries
    sm['access.bagit.open_bag'] = open_bag
    sm['access.extended.as_extended'] = lambda e, fn, a, kw: a[0]
    sm['access.multibag.as_headbag'] = lambda e, fn, a, kw: a[0]
    sm['HeadBag'] = new_head


def cases(e, seg, j, v):
    if seg.shape.k == 'str' and 'path' in seg.shape.tags:
        e.decide(str_term(v) == e.K)
    elif seg.shape.k == 'tuple':
        e.decide(str_term(v[0]) == e.K)


def is_in(e, seg, x):
    if seg.shape.k == 'str' and 'path' in seg.shape.tags:
        return seg.meas['kd'] > 0 if e.decide(str_term(x) == e.K) else z3.Bool(fresh_name('listed'))
    return None


def open_bag(e, fn, a, kw):
    if e.entails(e.eqt(a[0], e.oldpath)):
        return e.old
    e.bag = e.newobj(Obj(Ext('bag*'), {'name': SStr([Atom(NAMEOF(str_term(a[0])), ['nonempty'])]), 'path': a[0]}))
    return e.bag


def new_head(e, fn, a, kw):
    e.oblige('the new head bag is the one given', e.eqt(a[0], e.newpath))
    return e.nh


def is_there(e, a, kw):
    return SBool(z3.Bool(fresh_name('there')))


def removed(e, a, kw):
    p = e.newpath
    for x in ('multibag', 'member-bags.tsv'):
        p = strs.concat(strs.concat(p, '/'), x)
    e.oblige('no file is removed but the old member list', e.eqt(a[0], p))
    return None


def reread(e, a, kw):
    """after the file has been removed: nothing is listed"""
    if len(a) > 1 and a[1] is True:
        e.setattr(e.log, 'pos', 0)
    return e.newobj(PList())


def term(v):
    return z3.StringVal('(none)') if v is None else str_term(v) if is_str(v) else None


def add_member(e, a, kw):
    """'adding a member': to the end of the list, replacing an entry of the same name"""
    a = list(a) + [None] * (5 - len(a))
    for i, k in enumerate(('name', 'uri', 'comment', 'info')):
        a[i + 1] = kw.get(k, a[i + 1])
    if 'trunc' in kw or 'replace' in kw or len(a) > 5:
        raise Unsupported('add_member_bag with more arguments')
    pos = int_term(g(e, 'pos'))
    nm = str_term(a[1])
    due, plain = [], a[2] is None and a[3] is None and (a[4] is None or isinstance(a[4], PList) and not a[4].segs)
    if e.ishead:
        same = [at == term(x) for at, x in ((e.at(e.members, pos, (('f', k),)), a[i + 1]) for i, k in enumerate(('name', 'uri', 'comment', 'info')))] \
            if all(term(x) is not None for x in a[1:5]) else [z3.BoolVal(False)]
        due.append(z3.Implies(pos < e.n, z3.And(*same)))
    else:
        due.append(z3.Implies(pos < e.n, z3.And(nm == str_term(e.old.attrs['name']), z3.BoolVal(plain))))
    due.append(z3.Implies(z3.And(pos >= e.n, pos < e.n + e.na), z3.And(nm == NAMEOF(e.at(e.amend, pos - e.n)), z3.BoolVal(plain))))
    own = [nm == str_term(e.nh.attrs['name'])] + [e.eqt(x, y) for x, y in zip(a[2:4], (e.pid, e.comm))]
    due.append(z3.Implies(pos == e.n + e.na, z3.And(*own)))
    due.append(pos <= e.n + e.na)
    e.oblige('the members are the old ones, the amending bags and the new head bag, in this order', z3.And(*due))
    e.setattr(e.log, 'pos', SInt(pos + 1))
    e.setattr(e.log, 'mem*', True)
    # the files listed for a bag of the name are not any more; those listed for a bag that is named again in the amendment are not followed
    mine = z3.And(bool_term(g(e, 'has')), str_term(g(e, 'val')) == nm)
    e.assume(z3.Implies(pos >= e.n, z3.Not(mine)))
    e.setattr(e.log, 'has', SBool(z3.And(bool_term(g(e, 'has')), z3.Not(mine))))


def listed(e, place, val):
    e.setattr(e.log, 'has', True)
    e.setattr(e.log, 'val', val)
    e.setattr(e.log, 'at', SInt(place))
    e.setattr(e.log, 'lu*', True)


def add_lookup(e, a, kw):
    if e.decide(str_term(a[1]) == e.K):
        # which entry it is: the one at hand
        e.oblige('an entry of the old file lookup', e.entry_at is not None)
        listed(e, e.entry_at, a[2])


def update_for(e, a, kw):
    """'the file lookup for a member': the payload files of the bag, unless asked otherwise, with its name"""
    bag = a[1]
    mk = kw.get('make_member', a[4] if len(a) > 4 else True)
    e.oblige('the member list is left to add_member_bag', mk is False)
    for i, k in ((2, 'include'), (3, 'exclude')):
        e.oblige('all payload files are listed', (a[i] if len(a) > i else kw.get(k)) is None)
    if bag is e.nh:
        at, c = e.n0 + e.na, PAY(str_term(e.newpath))
    elif bag is e.old:
        at, c = z3.IntVal(0), PAY(str_term(e.oldpath))
    else:
        at, c = e.n0 + int_term(g(e, 'pos')) - 1 - e.n, PAY(str_term(bag.attrs['path']))
    if e.decide(c):
        listed(e, at, bag.attrs['name'])
    e.setattr(e.log, 'lu*', True)


def deleted_paths(e, a, kw):
    if len(a) > 1 and a[1] is True:
        e.setattr(e.log, 'del', SBool(e.d0))
    l = e.slist(PATH, 'already')
    e.assume(l.segs[0].meas['kd'] == b2i(bool_term(g(e, 'del'))))
    return l


def mark(e, p, v):
    e.setattr(e.log, 'del*', True)
    if e.decide(str_term(p) == e.K):
        e.setattr(e.log, 'del', v)


def provides(e, a, kw):
    b, p = a
    if e.decide(str_term(p) == e.K):
        return wrap_bool(HASP(str_term(b.attrs['path'])))
    return SBool(z3.Bool(fresh_name('exists')))


def update_info(e, a, kw):
    v = a[1] if len(a) > 1 else kw.get('version')
    pv = a[2] if len(a) > 2 else kw.get('profver')
    e.oblige('the version is the one given', e.eqt(v, e.version))
    e.oblige('the profile version is kept', pv is not None and e.eqt(pv, e.getitem(e.newinfo, 'Multibag-Version')))
    e.setattr(e.log, 'info', True)


def prov(e, j):
    """the place in the old lookup, the list of amending bags or the new head provides the path followed"""
    old = e.at(e.lookup, j, (('t', 0),)) == e.K if e.ishead else PAY(str_term(e.oldpath))
    am = PAY(e.at(e.amend, j - e.n0)) if e.amend.segs else z3.BoolVal(False)
    return z3.If(j < e.n0, old, z3.If(j < e.n0 + e.na, am, PAY(str_term(e.newpath))))


def value(e, j):
    old = e.at(e.lookup, j, (('t', 1),)) if e.ishead else str_term(e.old.attrs['name'])
    am = NAMEOF(e.at(e.amend, j - e.n0)) if e.amend.segs else str_term(e.nh.attrs['name'])
    return z3.If(j < e.n0, old, z3.If(j < e.n0 + e.na, am, str_term(e.nh.attrs['name'])))


def last_of(e, has, at, val, now):
    inr = z3.And(e.J >= 0, e.J < now)
    return z3.And(z3.Implies(has, z3.And(at >= 0, at < now, prov(e, at), val == value(e, at), z3.Implies(z3.And(inr, e.J > at), z3.Not(prov(e, e.J))))),
                  z3.Implies(z3.And(z3.Not(has), inr), z3.Not(prov(e, e.J))))


def cands(e, st):
    out = []
    L = dict((k, (e.log.uid, k)) for k in e.log.attrs)
    for nm, base in (('old', z3.IntVal(0)), ('amend', e.n0)):
        out.append(('lookup ' + nm, lambda s, base=base: last_of(e, bool_term(s.read(L['has'])), int_term(s.read(L['at'])), str_term(s.read(L['val'])), base + s.idx)))
    out.append(('place', lambda s: int_term(s.read(L['pos'])) == e.n + s.idx))
    if st.seg is not None:
        if 'kd' in st.seg.meas:
            x = st.entry.get(L['del'])
            d = x[1] if x is not None else bool_term(g(e, 'del'))
            here = lambda s: s.seg.prefix('kd')(s.idx) > 0
            out.append(('marked', lambda s: bool_term(s.read(L['del'])) == z3.Or(d, here(s))))
            for i, b in enumerate((e.nh, e.old, e.bag)):
                if b is not None:
                    out.append(('unmarked %d' % i, lambda s, b=b: bool_term(s.read(L['del'])) == z3.And(d, z3.Not(z3.And(here(s), HASP(str_term(b.attrs['path'])))))))
        if 'ex' in st.seg.meas:
            out.append(('kept deleted', lambda s: bool_term(s.read(L['del'])) == z3.Or(e.d0, z3.And(e.dold, s.seg.prefix('ex')(s.idx) == 0))))
    return out


def amendment(e, ishead, what):
    e.ishead = ishead
    # what is not followed is left at one of each
    e.members = e.slist(MEM, 'members') if 'members' in what else e.mk([e.fresh(MEM, 'member')])
    e.lookup = e.slist(TTuple(PATH, TStr('nonempty')), 'lookup') if 'lookup' in what else e.mk([(e.fresh(PATH, 'p'), e.sstr('b', 'nonempty'))])
    e.olddel = e.slist(PATH, 'deleted') if 'deleted' in what else e.mk([])
    e.bag = None
    e.amend = e.slist(BPATH, 'amend')
    e.n = int_term(e.length(e.members)) if ishead else z3.IntVal(1)
    e.n0 = int_term(e.length(e.lookup)) if ishead else z3.IntVal(1)
    e.na = int_term(e.length(e.amend))
    e.d0 = z3.Bool('d0*')
    e.dold = e.measure(e.olddel, 'kd') > 0 if ishead else z3.BoolVal(False)
    e.oldpath, e.newpath, e.version = e.sstr('oldpath', 'nonempty', 'oldpath'), e.sstr('newpath', 'nonempty', 'noendslash'), e.sstr('version', 'nonempty')
    e.pid = e.comm = None
    e.oldinfo, e.dep0, e.ver0 = old_info(e, 'info' in what)
    e.old = e.newobj(Obj(Ext('old*'), {'name': e.sstr('oldname', 'nonempty'), 'path': e.oldpath, 'info': e.oldinfo}))
    e.newinfo = e.newobj(PDict([('Contact-Name', e.sstr('contact'))]))
    e.nh = e.newobj(Obj(Ext('nh*'), {'name': e.sstr('newname', 'nonempty'), 'path': e.newpath, 'info': e.newinfo, 'multibag_tag_dir': 'multibag'}))
    e.log = e.newobj(Obj(Ext('log*'), {'pos': 0, 'has': e.sbool('has0'), 'val': e.sstr('val0', 'nonempty'), 'at': 0, 'del': SBool(e.d0), 'mem*': False, 'lu*': False, 'del*': False, 'info': False}))
    e.entry_at = None if 'lookup' in what else z3.IntVal(0)
    seg = e.lookup.segs[0]

    def here(e, s, j, v):
        if s is seg:
            e.entry_at = j
        if s is e.amend.segs[0]:
            e.assume(z3.And(str_term(v) != str_term(e.oldpath), str_term(v) != str_term(e.newpath)))
    e.hooks = [here] + e.hooks


def old_info(e, full):
    d = []
    k = e.choose(3) if full else 1
    if k == 0:
        dep, want = None, e.mk([])
    elif k == 1:
        dep = e.sstr('dep')
        want = e.mk([dep])
    else:
        dep = e.slist(TStr(), 'deps')
        want = e.newobj(PList(list(dep.segs)))
    if dep is not None:
        d.append(('Multibag-Head-Deprecates', dep))
    ver = e.sstr('oldver', 'nonempty') if not full or e.choose(2) == 0 else None
    if ver is not None:
        d.append(('Multibag-Head-Version', ver))
    if not full or e.choose(2) == 0:
        d.append(('Multibag-Version', e.sstr('oldprof', 'nonempty')))
    e.deps = dep
    return e.newobj(PDict(d)), want, ver if ver is not None else '1'


def amended(e, ishead, what):
    amendment(e, ishead, what)
    old0 = dict(e.oldinfo.d)
    segs0 = list(e.deps.segs) if isinstance(e.deps, PList) else None
    f = e.get('amend.amend_bag_with')
    e.target, e.target_depth = f.qualname, len(e.stack)
    k, v = e.run(lambda: e.call(f, [e.oldpath, e.newpath, e.version, StarSeg(e.amend.segs[0])], {}))
    e.oblige('returns', k == 'ret')
    if k != 'ret':
        return
    e.cover()
    pos, has, at, val = int_term(g(e, 'pos')), bool_term(g(e, 'has')), int_term(g(e, 'at')), str_term(g(e, 'val'))
    e.oblige('all members are listed', pos == e.n + e.na + 1)
    e.oblige('each file is listed with the last bag that provides it, and no other', last_of(e, has, at, val, e.n0 + e.na + 1))
    ex = e.measure(e.amend, 'ex') if e.amend.segs else z3.IntVal(0)
    e.oblige('deletions are kept unless the path is provided again', bool_term(g(e, 'del')) == z3.Or(e.d0, z3.And(e.dold, ex == 0, z3.Not(HASP(str_term(e.newpath))))))
    for x, what in (('mem*', 'members'), ('lu*', 'file lookup'), ('del*', 'deletion marks')):
        e.oblige('the %s are saved' % what, z3.Not(bool_term(g(e, x))))
    e.oblige('the metadata is saved', bool_term(g(e, 'info')))
    info = e.newinfo.d
    dep = info.get('Multibag-Head-Deprecates')
    e.oblige('the old versions are deprecated', isinstance(dep, PList))
    want = e.dep0
    n = int_term(e.length(want))
    e.oblige('the old versions are deprecated', int_term(e.length(dep)) == n + 1)
    e.oblige('in order', z3.And(z3.Implies(z3.And(e.J >= 0, e.J < n), e.at(dep, e.J) == e.at(want, e.J)) if want.segs else z3.BoolVal(True), e.at(dep, n) == str_term(e.ver0)))
    e.oblige("the amended bag's metadata is left alone", e.oldinfo.d == old0 and (segs0 is None or e.deps.segs == segs0))


@contract('amending a plain bag', 'C08 C05', setup=setup, seconds=300)
def amending_plain(e):
    """the edits made of the new head bag: the amended bag, the amending bags in order and the new head bag are added as members; for any
    path, it is listed with the last of these bags that provides it; it is marked as deleted if it was in the new head; all is
    saved; the versions deprecated are those of the old bag and its own"""
    amended(e, False, ('members', 'lookup', 'deleted', 'info'))


for _w in ('members', 'lookup', 'deleted', 'info'):
    def f(e, w=_w):
        """the same for an amended head bag: its members with their data first, its file lookup, its deletion marks unless a new bag
        provides the path"""
        amended(e, True, (w,))
    contract('amending an aggregation (%s)' % _w, 'C08 C05', setup=setup, seconds=300)(f)
