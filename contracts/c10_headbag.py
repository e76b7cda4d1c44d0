"""C10: editing the data of a head bag."""
from vc import *
import strs
import textmodel
from strs import uf

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
PATH = TStr('nonempty', 'path')
NAME = TStr('nonempty', 'bagname')


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def member_shape(e):
    if getattr(e, 'small_members', False):
        return TRec({'name': NAME, 'id*': TInt}, cls=e.get('access.multibag.MemberInfo'))
    return TRec({'name': NAME, 'uri': TOpt(TNone, TStr('nonempty')), 'comment': TOpt(TNone, TStr('nonempty')), 'info': TList(TStr()), 'id*': TInt},
                cls=e.get('access.multibag.MemberInfo'))


def is_member(e):
    cls = e.get('access.multibag.MemberInfo')
    return lambda sh: sh.k == 'rec' and sh.cls is cls


def is_pair(sh):
    return sh.k == 'tuple' and len(sh.els) == 2 and sh.els[0].k == 'str' and sh.els[1].k == 'str'


def setup(e):
    e.BAG, e.W = z3.String('BAG*'), z3.Int('W*')
    mem = is_member(e)
    idof = lambda v: int_term(v.attrs['id*']) if 'id*' in v.attrs else z3.IntVal(-1)
    k = Measure('k', lambda sh: sh.k == 'str' and 'path' in sh.tags, lambda e, v: b2i(str_term(v) == e.K), unit=True)
    kt = Measure('kt', is_pair, lambda e, v: b2i(str_term(v[0]) == e.K), unit=True)
    kb = Measure('kb', is_pair, lambda e, v: b2i(z3.And(str_term(v[0]) == e.K, str_term(v[1]) == e.BAG)), unit=True)
    for m in (k, kt, kb):
        m.witness = lambda e: e.K
    k.key = kt.key = True
    e.measures = [k, kt, kb,
                  Measure('mb', mem, lambda e, v: b2i(str_term(v.attrs['name']) == e.BAG), unit=True),
                  Measure('mw', mem, lambda e, v: b2i(z3.And(idof(v) == e.W, str_term(v.attrs['name']) != e.BAG)), unit=True)]
    e.hooks = [cases]
    textmodel.setup(e)
    e.models['collections.OrderedDict'] = odict
    miss = 'access.exceptions.MissingMultibagFileError'

    def disk(what):
        def f(e, fn, args, kw):
            """the entries read from the tag file, or the error that there is none; see 'reading ...'"""
            if e.disk[what] is None:
                if what == 'deleted':
                    return e.newobj(Iter(e.newobj(PList())))
                raise PyRaise(e.call(e.get(miss), ['tag file'], {}))
            return e.newobj(Iter(e.newobj(PList(list(e.disk[what].segs)))))
        return f
    e.summaries['access.multibag.HeadBagReadMixin.iter_member_bags'] = disk('members')
    e.summaries['access.multibag.HeadBagReadMixin.iter_file_lookup'] = disk('lookup')
    e.summaries['access.multibag.HeadBagReadMixin.iter_deleted'] = disk('deleted')


def odict(e, a, kw):
    if a or kw:
        return e.b_dict(a, kw)
    return e.newobj(empty_map())


def empty_map():
    m = SMap(z3.K(S, z3.BoolVal(False)), {(): z3.Const(fresh_name('v'), z3.ArraySort(S, S))}, NAME, PATH.tags)
    m.nxt = z3.IntVal(0)
    return m


def cases(e, seg, j, v):
    """the path is K or not; the member is called BAG or not"""
    sh = seg.shape
    if sh.k == 'str' and 'path' in sh.tags and not getattr(seg, 'nosplit', False):
        e.decide(str_term(v) == e.K)
    elif is_pair(sh):
        e.decide(str_term(v[0]) == e.K)
        e.decide(str_term(v[1]) == e.BAG)


class State(object):
    pass


def headbag(e, lookup=True, deleted=True, members=True):
    """a head bag with any lists on disk, each read before (and edited since) or not; the second result says what its data are"""
    textmodel.start(e)
    e.disk = {'members': None, 'lookup': None, 'deleted': None}
    st = State()
    # the member list
    mode = e.choose(3) if members else 0
    st.mem_read, st.members = mode == 2, None
    if mode:
        l = e.slist(member_shape(e), 'members')
        st.members = l
        if mode == 1:
            e.disk['members'] = l
        else:
            e.disk['members'] = e.slist(member_shape(e), 'odisk')
    mem = e.newobj(PList(list(st.members.segs))) if st.mem_read else None
    st.mem0 = e.newobj(PList(list(st.members.segs))) if st.members else e.mk([])
    # the file lookup
    mode = e.choose(3) if lookup else 0
    st.lu_read = mode == 2
    lu = None
    if mode == 0:
        st.lu0 = empty_map()
    elif mode == 1:
        e.disk['lookup'] = e.slist(TTuple(PATH, NAME), 'lookup')
        st.lu0 = e.map_of_pairs(e.disk['lookup']).clone()
    else:
        e.disk['lookup'] = e.slist(TTuple(PATH, NAME), 'olookup')
        lu = e.fresh(Sh('map', val=NAME, ktags=PATH.tags), 'lu')
        st.lu0 = lu.clone()
    mode = 2 if deleted == 'read' else e.choose(3) if deleted else 0
    dl = None
    st.del_read = mode == 2
    if mode == 0:
        st.del0 = z3.BoolVal(False)
    elif mode == 1:
        e.disk['deleted'] = e.slist(PATH, 'deleted')
        st.del0 = e.measure(e.disk['deleted'], 'k') > 0
    else:
        e.disk['deleted'] = e.slist(PATH, 'odeleted')
        dl = e.fresh(Sh('set', tags=PATH.tags), 'dl')
        st.del0 = z3.Select(dl.has, e.K)
    st.tagdir = e.sstr('tagdir', 'nonempty', 'noslash0')
    st.bagdir = e.sstr('bagdir', 'nonempty')
    info = e.newobj(PDict({'Multibag-Tag-Directory': st.tagdir} if e.tagged else {}))
    info.origin = None
    if not e.tagged:
        st.tagdir = 'multibag'
    hb = e.obj('access.multibag.HeadBag', _memberbags=mem, _filelu=lu, _deleted=dl, _bagdir=st.bagdir, info=info)
    return hb, st


def lookup_now(e, hb):
    """(there, value, order) of K in the lookup data the bag now has"""
    m = hb.attrs['_filelu']
    if m is None:
        d = e.disk['lookup']
        m = empty_map() if d is None else e.map_of_pairs(d)
    if isinstance(m, PDict) and not m.d:
        m = empty_map()
    if not isinstance(m, SMap):
        raise Unsupported('the file lookup is a %s' % type(m).__name__)
    return z3.Select(m.has, e.K), z3.Select(m.val[()], e.K), z3.Select(m.ordr, e.K)


def lookup0(e, st):
    m = st.lu0
    return z3.Select(m.has, e.K), z3.Select(m.val[()], e.K), z3.Select(m.ordr, e.K)


def deleted_now(e, hb):
    s = hb.attrs['_deleted']
    if s is None:
        d = e.disk['deleted']
        return z3.BoolVal(False) if d is None else e.measure(d, 'k') > 0
    return z3.Select(s.has, e.K)


def members_now(e, hb):
    m = hb.attrs['_memberbags']
    if m is None:
        m = e.disk['members']
    return m if m is not None else e.mk([])


def same_lookup(e, hb, st, name='the file lookup stays'):
    h, v, o = lookup_now(e, hb)
    h0, v0, o0 = lookup0(e, st)
    e.oblige(name, z3.And(h == h0, z3.Implies(h0, z3.And(v == v0, o == o0))))


def same_deleted(e, hb, st, name='the deletion marks stay'):
    e.oblige(name, deleted_now(e, hb) == st.del0)


def mpaths(e):
    return [p for p, _ in e.leaves(member_shape(e))]


def same_members(e, hb, st, name='the member list stays'):
    m = members_now(e, hb)
    n = int_term(e.length(st.mem0))
    e.oblige(name + ' (number)', int_term(e.length(m)) == n)
    if m.segs and st.mem0.segs:
        for p in mpaths(e):
            e.oblige(name, z3.Implies(z3.And(e.J >= 0, e.J < n), e.at(m, e.J, p) == e.at(st.mem0, e.J, p)))


def untouched(e):
    e.oblige('no file is touched', not e.acts and not [h for h in e.opened if h.attrs['mode'] != 'r'])


def basic(e):
    setup(e)
    e.tagged = False
    e.jfree = True


@contract('adding a lookup entry', 'C10', setup=basic, covers=('there', 'new'))
def add_lookup(e):
    """only the entry for that path changes; it keeps its place if it was there and comes last otherwise"""
    hb, st = headbag(e, members=False, deleted=False)
    p, b = e.sstr('p', *PATH.tags), e.sstr('b', *NAME.tags)
    k, r = e.meth(hb, 'add_file_lookup', p, b)
    e.oblige('returns', k == 'ret')
    h, v, o = lookup_now(e, hb)
    h0, v0, o0 = lookup0(e, st)
    if e.decide(str_term(p) == e.K):
        e.oblige('the entry is there', h)
        e.oblige('with its bag', v == str_term(b))
        if e.decide(h0):
            e.cover('there')
            e.oblige('it keeps its place', o == o0)
        else:
            e.cover('new')
            e.oblige('it comes last', o >= st.lu0.nxt)
    else:
        same_lookup(e, hb, st, 'the other entries stay')
    same_members(e, hb, st)
    same_deleted(e, hb, st)
    untouched(e)


@contract('removing a lookup entry', 'C10', setup=basic, covers=('there', 'not there'))
def remove_lookup(e):
    """only the entry for that path goes"""
    hb, st = headbag(e, members=False, deleted=False)
    p = e.sstr('p', *PATH.tags)
    k, r = e.meth(hb, 'remove_file_lookup', p)
    e.oblige('returns', k == 'ret')
    h, v, o = lookup_now(e, hb)
    h0, v0, o0 = lookup0(e, st)
    if e.decide(str_term(p) == e.K):
        e.cover('there' if e.decide(h0) else 'not there')
        e.oblige('the entry is gone', z3.Not(h))
    else:
        same_lookup(e, hb, st, 'the other entries stay')
    same_members(e, hb, st)
    same_deleted(e, hb, st)
    untouched(e)


@contract('looking a file up', 'C10 C04', setup=basic, covers=('there', 'not there'))
def look_up(e):
    """the bag in the entry for the path, None if there is none; re-reading brings back what is on disk"""
    hb, st = headbag(e, members=False, deleted=False)
    p = e.sstr('p', *PATH.tags)
    e.assume(str_term(p) == e.K)
    re = e.choose(2) == 1
    k, r = e.meth(hb, 'lookup_file', p, re)
    e.oblige('returns', k == 'ret')
    if re:
        d = e.disk['lookup']
        m = empty_map() if d is None else e.map_of_pairs(d)
    else:
        m = st.lu0
    h0, v0 = z3.Select(m.has, e.K), z3.Select(m.val[()], e.K)
    if r is None:
        e.cover('not there')
        e.oblige('None only if there is no entry', z3.Not(h0))
    else:
        e.cover('there')
        e.oblige('the bag of the entry', z3.And(h0, str_term(r) == v0))
    if not (re and st.lu_read and e.disk['lookup'] is None):
        h, v, o = lookup_now(e, hb)
        e.oblige('the lookup data are these', z3.And(h == h0, z3.Implies(h0, v == v0)))
    same_members(e, hb, st)
    same_deleted(e, hb, st)
    untouched(e)


@contract('the files of a member', 'C10', setup=basic)
def files_of(e):
    """exactly the files whose entry names the bag, each once"""
    hb, st = headbag(e, members=False, deleted=False)
    k, r = e.meth(hb, 'files_in_member', SStr([Atom(e.BAG, NAME.tags)]))
    e.oblige('returns', k == 'ret')
    h0, v0, o0 = lookup0(e, st)
    l = e.to_list(r)
    got = e.measure(l, 'k') if l.segs else z3.IntVal(0)
    e.oblige('the files whose entry names the bag, once', got == b2i(z3.And(h0, v0 == e.BAG)))
    same_lookup(e, hb, st)
    same_members(e, hb, st)
    same_deleted(e, hb, st)
    untouched(e)
    e.cover()


@contract('marking as deleted', 'C10', setup=basic)
def mark(e):
    """set_deleted() and unset_deleted() change the mark of that path only"""
    hb, st = headbag(e, members=False, lookup=False)
    p = e.sstr('p', *PATH.tags)
    on = e.choose(2) == 1
    k, r = e.meth(hb, 'set_deleted' if on else 'unset_deleted', p)
    e.oblige('returns', k == 'ret')
    now = deleted_now(e, hb)
    if e.decide(str_term(p) == e.K):
        e.oblige('the mark is as asked', now == z3.BoolVal(on))
    else:
        same_deleted(e, hb, st, 'the other marks stay')
    same_members(e, hb, st)
    same_lookup(e, hb, st)
    untouched(e)
    e.cover()


@contract('the deleted paths', 'C10 C06', setup=basic)
def deleted(e):
    """each marked path once; re-reading brings back what is on disk"""
    hb, st = headbag(e, members=False, lookup=False)
    re = e.choose(2) == 1
    k, r = e.meth(hb, 'deleted_paths', re)
    e.oblige('returns', k == 'ret')
    d = e.disk['deleted']
    want = st.del0 if not re else (z3.BoolVal(False) if d is None else e.measure(d, 'k') > 0)
    l = e.to_list(r)
    got = e.measure(l, 'k') if l.segs else z3.IntVal(0)
    e.oblige('each marked path, once', got == b2i(want))
    e.oblige('the marks are these', deleted_now(e, hb) == want)
    untouched(e)
    e.cover()


@contract('the member bags', 'C10', setup=basic)
def member_list(e):
    """the members as edited; re-reading brings back what is on disk"""
    hb, st = headbag(e, lookup=False, deleted=False)
    re = e.choose(2) == 1
    k, r = e.meth(hb, 'member_bags', re)
    e.oblige('returns', k == 'ret')
    want = st.mem0 if not re else (e.disk['members'] or e.mk([]))
    l = e.to_list(r)
    n = int_term(e.length(want))
    e.oblige('the members (number)', int_term(e.length(l)) == n)
    if l.segs and want.segs:
        for p in mpaths(e):
            e.oblige('the members', z3.Implies(z3.And(e.J >= 0, e.J < n), e.at(l, e.J, p) == e.at(want, e.J, p)))
    untouched(e)
    e.cover()


def removed(e, hb, st):
    """what holds after the member BAG has been removed, but for the member list"""
    h, v, o = lookup_now(e, hb)
    h0, v0, o0 = lookup0(e, st)
    e.oblige('its lookup entries are gone', z3.Implies(z3.And(h0, v0 == e.BAG), z3.Not(h)))
    e.oblige('the other lookup entries stay', z3.Implies(z3.Not(z3.And(h0, v0 == e.BAG)), z3.And(h == h0, z3.Implies(h0, z3.And(v == v0, o == o0)))))
    d = deleted_now(e, hb)
    e.oblige('the deletion marks of its files are gone', z3.Implies(z3.And(h0, v0 == e.BAG), z3.Not(d)))
    e.oblige('the other deletion marks stay', z3.Implies(z3.Not(z3.And(h0, v0 == e.BAG)), d == st.del0))


def cnt(e, l, m):
    t = e.measure(l, m) if l.segs else None
    return z3.IntVal(0) if t is None else t


def removing(e):
    basic(e)
    e.summaries['access.multibag.HeadBagUpdateMixin.files_in_member'] = lambda e, fn, a, k: e.slist(PATH, 'files')
    # 'marking as deleted', 'removing a lookup entry': the member list stays
    for f in ('unset_deleted', 'remove_file_lookup'):
        e.summaries['access.multibag.HeadBagUpdateMixin.' + f] = lambda e, fn, a, k: None


@contract('removing a member: the list', 'C10', setup=removing, seconds=300)
def remove_member(e):
    """its entries go, and no others"""
    e.small_members = True
    hb, st = headbag(e, lookup=False, deleted=False)
    k, r = e.meth(hb, 'remove_member_bag', SStr([Atom(e.BAG, NAME.tags)]))
    e.oblige('returns', k == 'ret')
    m = members_now(e, hb)
    e.oblige('no entry of that name is left', cnt(e, m, 'mb') == 0)
    e.oblige('each other member stays', cnt(e, m, 'mw') == cnt(e, st.mem0, 'mw'))
    e.oblige('nothing else is dropped', int_term(e.length(m)) == int_term(e.length(st.mem0)) - cnt(e, st.mem0, 'mb'))
    untouched(e)
    e.cover()


@contract('removing a member: its files', 'C10', setup=basic, seconds=300)
def remove_member_files(e):
    """the lookup entries for it go, with the deletion marks of those files; the others stay.  The deletion marks are taken as
    read before: 'marking as deleted' shows that it makes no difference"""
    hb, st = headbag(e, members=False, deleted='read')
    hb.attrs['_memberbags'] = e.mk([])
    k, r = e.meth(hb, 'remove_member_bag', SStr([Atom(e.BAG, NAME.tags)]))
    e.oblige('returns', k == 'ret')
    removed(e, hb, st)
    untouched(e)
    e.cover()


def new_entry(e):
    uri = None if e.choose(2) else e.sstr('uri', 'nonempty')
    comm = None if e.choose(2) else e.sstr('comm', 'nonempty')
    info = None if e.choose(2) else e.slist(TStr(), 'info')
    return uri, comm, info


def last_is(e, m, uri, comm, info):
    """the last entry of the list is a new one with these data"""
    e.oblige('the new entry comes last', bool(m.segs) and isinstance(m.segs[-1], El) and isinstance(m.segs[-1].v, Obj))
    x = m.segs[-1].v
    e.oblige('its name', e.eqt(x.attrs['name'], SStr([Atom(e.BAG, NAME.tags)])))
    for f, want in (('uri', uri), ('comment', comm)):
        got = x.attrs[f]
        e.oblige('its ' + f, got is None if want is None else got is not None and e.eqt(got, want))
    e.same_elems('its further fields', x.attrs['info'], info if info is not None else e.mk([]))


@contract('adding a member: the list', 'C10', setup=removing, seconds=300, covers=('override', 'no override'))
def add_member(e):
    """the entry comes last; entries of the same name go unless override is off; no others change"""
    e.small_members = True
    hb, st = headbag(e, lookup=False, deleted=False)
    uri, comm, info = new_entry(e)
    over = e.choose(2) == 1
    args = [SStr([Atom(e.BAG, NAME.tags)]), uri, comm, info] + ([] if over else [False])
    k, r = e.meth(hb, 'add_member_bag', *args)
    e.oblige('returns', k == 'ret')
    m = hb.attrs['_memberbags']
    last_is(e, m, uri, comm, info)
    rest = e.newobj(PList(list(m.segs[:-1])))
    n0 = int_term(e.length(st.mem0))
    if over:
        e.cover('override')
        e.oblige('no other entry of that name', cnt(e, rest, 'mb') == 0)
        e.oblige('each other member stays', cnt(e, rest, 'mw') == cnt(e, st.mem0, 'mw'))
        e.oblige('nothing else is dropped', int_term(e.length(rest)) == n0 - cnt(e, st.mem0, 'mb'))
    else:
        e.cover('no override')
        e.oblige('the others stay (number)', int_term(e.length(rest)) == n0)
        if rest.segs and st.mem0.segs:
            for p in mpaths(e):
                e.oblige('the others stay', z3.Implies(z3.And(e.J >= 0, e.J < n0), e.at(rest, e.J, p) == e.at(st.mem0, e.J, p)))
    untouched(e)


@contract('adding a member: its files', 'C10', setup=basic, seconds=300)
def add_member_files(e):
    """with override on, the lookup entries for the bag go, with the deletion marks of those files; otherwise all stay"""
    hb, st = headbag(e, members=False, deleted='read')
    hb.attrs['_memberbags'] = e.mk([])
    over = e.choose(2) == 1
    args = [SStr([Atom(e.BAG, NAME.tags)]), None, None, None] + ([] if over else [False])
    k, r = e.meth(hb, 'add_member_bag', *args)
    e.oblige('returns', k == 'ret')
    if over:
        removed(e, hb, st)
    else:
        same_lookup(e, hb, st)
        same_deleted(e, hb, st)
    untouched(e)
    e.cover()


@contract('setting the members', 'C10', setup=basic)
def set_members(e):
    """the list becomes the one given, as a list of its own"""
    e.small_members = True
    hb, st = headbag(e, lookup=False, deleted=False)
    new = e.slist(member_shape(e), 'given')
    segs = list(new.segs)
    k, r = e.meth(hb, 'set_member_bags', new)
    e.oblige('returns', k == 'ret')
    m = hb.attrs['_memberbags']
    n = int_term(e.length(new))
    e.oblige('the number', int_term(e.length(m)) == n)
    e.oblige('the list given stays its own', m is not new and new.segs == segs)
    for p in mpaths(e):
        e.oblige('the members', z3.Implies(z3.And(e.J >= 0, e.J < n), e.at(m, e.J, p) == e.at(new, e.J, p)))
    untouched(e)
    e.cover()
