"""C06: the fetch list of a restored bag.  One arbitrary path K is followed; every member is known by its place in the list."""
from vc import *
import strs
from strs import uf
from ct_c06_restore import PLACE, NAME, S, I, B, b2i

STRIP = uf('strip_lr', S, S)
LINES, LINE, HASLIST = uf('fetch lines*', I, I), uf('fetch line*', I, I, S), uf('fetch list*', I, B)
LH, LT = uf('listed before*', I, I, B), uf('entry before*', I, I, S)        # K in the lines of this member before this one; its entry
OH, OT = uf('listed by members before*', I, B), uf('entry of members before*', I, S)
FIELDS, REST = uf('ws_fields', S, I), uf('ws_rest2', S, S)
TPATH = TStr('nonempty', 'path')


def entry_of(x):
    return z3.Concat(STRIP(x), z3.StringVal('\n'))


def is_k(e, x):
    y = STRIP(x)
    return z3.And(FIELDS(y) > 2, REST(y) == e.K)


def has(m):
    return z3.And(HASLIST(m), LH(m, LINES(m)))


def member_facts(e, i):
    """the entry of the members up to and with the one at place i"""
    e.assume(OH(i + 1) == z3.Or(OH(i), has(i)))
    e.assume(OT(i + 1) == z3.If(has(i), LT(i, LINES(i)), OT(i)))


def setup(e):
    e.jfree = True
    e.lean = ['<=len', '==len(', '+len(', '<=entry']
    cov = Measure('cov', lambda sh: sh.k == 'str' and 'skip' in sh.tags,
                  lambda e, v: b2i(z3.Or(str_term(v) == e.K, z3.PrefixOf(z3.Concat(str_term(v), z3.StringVal('/')), e.K))), unit=True)
    kp = Measure('kp', lambda sh: sh.k == 'str' and 'path' in sh.tags, lambda e, v: b2i(str_term(v) == e.K), unit=True)
    kp.witness = lambda e: e.K
    e.measures = [cov, kp]
    e.hooks = [cases]
    e.cands = [cands]
    M = e.models
    M['head*.member_bags'] = lambda e, a, kw: e.newobj(PList(list(e.members.segs)))
    M['bag*.isfile'] = isfile
    M['bag*.exists'] = isfile
    M['bag*.open_text_file'] = open_list
    for t in ('in*', 'out*'):
        M[t + '.__enter__'] = lambda e, a, kw: a[0]
        M[t + '.__exit__'] = M[t + '.close'] = lambda e, a, kw: None
    M['iter:in*'] = lambda e, a, kw: a[0].attrs['lines']
    M['collections.OrderedDict'] = M['builtins.dict'] = lambda e, a, kw: e.newobj(Obj(Ext('fm*'), {'has': False, 'txt': '', 'other': False}))
    M['fm*.__setitem__'] = fm_set
    M['fm*.__getitem__'] = fm_get
    M['fm*.__contains__'] = lambda e, a, kw: a[0].attrs['has'] if e.decide(str_term(a[1]) == e.K) else e.sbool('listed')
    M['fm*.__delitem__'] = fm_del
    M['fm*.pop'] = fm_del
    M['fm*.__bool__'] = lambda e, a, kw: SBool(z3.Or(bool_term(a[0].attrs['has']), bool_term(a[0].attrs['other'])))
    M['iter:fm*'] = M['fm*.keys'] = fm_list
    M['fm*.items'] = lambda e, a, kw: e.map_list(lambda x: (x, fm_get(e, [a[0], x], {})), fm_list(e, a, kw))
    M['fm*.values'] = lambda e, a, kw: e.map_list(lambda x: fm_get(e, [a[0], x], {}), fm_list(e, a, kw))
    M['io.open'] = w_open
    M['out*.write'] = w_write
    M['os.path.exists'] = M['os.path.isfile'] = exists
    M['os.remove'] = M['os.unlink'] = remove
    sm = e.summaries
    q = 'restore.BagRestorer.'
    sm[q + '_create_dest_bag'] = lambda e, fn, a, kw: None

    def get_member(e, fn, a, kw):
        """the bag of this name is found"""
        e.oblige('the head bag is not looked for elsewhere', z3.Not(e.eqt(a[1], e.head.attrs['name'])))
        return e.newobj(Obj(Ext('place*'), {'i': SInt(PLACE(str_term(a[1])))}))
    sm[q + 'get_member_bag'] = get_member

    def open_bag(e, fn, a, kw):
        p = a[0]
        if is_str(p):
            e.oblige('the head bag is opened where it is', e.eqt(p, e.head.attrs['path']))
            i = PLACE(str_term(e.head.attrs['name']))
        else:
            i = int_term(p.attrs['i'])
        return e.newobj(Obj(Ext('bag*'), {'i': SInt(i)}))
    sm['access.bagit.open_bag'] = open_bag


def isfile(e, a, kw):
    e.oblige('the fetch list is looked for', e.eqt(a[1], 'fetch.txt'))
    return SBool(HASLIST(int_term(a[0].attrs['i'])))


def open_list(e, a, kw):
    e.oblige('the fetch list is read', e.eqt(a[1], 'fetch.txt'))
    i = int_term(a[0].attrs['i'])
    seg = SymSeg(e, LINES(i), TStr('line'), lambda p, j: LINE(i, j))
    seg.member = i
    for x in seg.axioms():
        e.assume(x)
    e.assume(z3.Not(LH(i, 0)))
    return e.newobj(Obj(Ext('in*'), {'lines': e.newobj(PList([seg]))}))


def cases(e, seg, j, v):
    if getattr(seg, 'member', None) is not None:
        m, x = seg.member, str_term(v)
        e.assume(LH(m, j + 1) == z3.Or(LH(m, j), is_k(e, x)))
        e.assume(LT(m, j + 1) == z3.If(is_k(e, x), entry_of(x), LT(m, j)))
    elif seg is e.members.segs[0]:
        member_facts(e, j)
    elif seg.shape.k == 'str' and 'path' in seg.shape.tags:
        e.decide(str_term(v) == e.K)


def fm_set(e, a, kw):
    o, k, v = a
    if e.decide(str_term(k) == e.K):
        e.setattr(o, 'has', True)
        e.setattr(o, 'txt', v)
    else:
        e.setattr(o, 'other', True)


def fm_get(e, a, kw):
    if e.decide(str_term(a[1]) == e.K):
        if not e.truthy(a[0].attrs['has']):
            raise e.pyexc('KeyError', a[1])
        return a[0].attrs['txt']
    return e.sstr('otherline', 'other')


def fm_del(e, a, kw):
    o = a[0]
    if e.decide(str_term(a[1]) == e.K):
        if not e.truthy(o.attrs['has']):
            if len(a) > 2:
                return a[2]
            raise e.pyexc('KeyError', a[1])
        e.setattr(o, 'has', False)
        return o.attrs['txt']
    e.setattr(o, 'other', e.sbool('other'))


def fm_list(e, a, kw):
    l = e.slist(TPATH, 'paths')
    h, o = bool_term(a[0].attrs['has']), bool_term(a[0].attrs['other'])
    e.assume(l.segs[0].meas['kp'] == b2i(h))
    e.assume((l.segs[0].n > 0) == z3.Or(h, o))
    return l


def fetch_txt(e):
    return strs.concat(e.dest, '/fetch.txt')


def exists(e, a, kw):
    return SBool(z3.Bool('fetch.txt there*')) if e.entails(e.eqt(a[0], fetch_txt(e))) else e.sbool('there')


def remove(e, a, kw):
    e.oblige('nothing else is removed', e.eqt(a[0], fetch_txt(e)))
    e.setattr(e.log, 'removed', True)


def w_open(e, a, kw):
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if mode not in ('w', 'wt'):
        raise Unsupported('open(%r)' % (mode,))
    e.oblige('the fetch list is written', e.eqt(a[0], fetch_txt(e)))
    e.oblige('the file is written as UTF-8', str(kw.get('encoding', '')).lower().replace('_', '-') in ('utf-8', 'utf8'))
    e.setattr(e.log, 'opened', SInt(int_term(e.log.attrs['opened']) + 1))
    return e.newobj(Obj(Ext('out*'), {}))


def w_write(e, a, kw):
    p = str_parts(a[1])
    if len(p) == 1 and isinstance(p[0], Atom) and 'other' in p[0].tags:
        return
    e.setattr(e.log, 'wrote', SInt(int_term(e.log.attrs['wrote']) + 1))
    e.setattr(e.log, 'text', a[1])


def maps(e):
    return [(u, o) for u, o in sorted(e.reg.items()) if isinstance(o, Obj) and isinstance(o.cls, Ext) and o.cls.dotted == 'fm*']


def cands(e, st):
    out = []
    if st.seg is None:
        return out
    k = 0
    for u, o in maps(e):
        k += 1
        H, T = (u, 'has'), (u, 'txt')

        def both(s, h, t, H=H, T=T):
            return z3.And(bool_term(s.read(H)) == h, z3.Implies(h, str_term(s.read(T)) == t))
        if st.seg is e.members.segs[0]:
            out.append(('members %d' % k, lambda s, both=both: both(s, OH(s.idx), OT(s.idx))))
        elif getattr(st.seg, 'member', None) is not None:
            m = st.seg.member
            out.append(('lines %d' % k, lambda s, both=both, m=m: both(s, z3.Or(OH(m), LH(m, s.idx)), z3.If(LH(m, s.idx), LT(m, s.idx), OT(m)))))
        if e.skip is not None and st.seg is e.skip.segs[0]:
            out.append(('skipped %d' % k, lambda s, both=both: both(s, z3.And(OH(e.n), s.seg.prefix('cov')(s.idx) == 0), OT(e.n))))
        if 'kp' in st.seg.meas:
            x = st.entry.get(H)
            if x is not None:
                out.append(('removed %d' % k, lambda s, H=H, x=x: bool_term(s.read(H)) == z3.And(x[1], s.seg.prefix('kp')(s.idx) == 0)))
    if 'kp' in st.seg.meas:
        w, t = (e.log.uid, 'wrote'), (e.log.uid, 'text')

        def written(s):
            return z3.And(int_term(s.read(w)) == s.seg.prefix('kp')(s.idx), z3.Implies(int_term(s.read(w)) > 0, str_term(s.read(t)) == OT(e.n)))
        out.append(('written', written))
    return out


@contract('the fetch list', 'C06 C07', setup=setup, covers=('some', 'none'))
def fetch(e):
    """for any path: it is in the restored fetch list exactly if some member lists it and it is not deleted, once, with the entry of the
    last-listed member that does; an empty list is not kept"""
    e.n = z3.Int('n*')
    e.members = e.slist(TRec({'name': TStr('nonempty', 'mname')}, cls=Ext('mem*')), 'members')
    e.assume(z3.And(int_term(e.length(e.members)) == e.n, e.n >= 0))
    e.add_fact(e.members.segs[0], lambda j, v: PLACE(str_term(v.attrs['name'])) == j)
    e.assume(z3.Not(OH(0)))
    e.dest = e.sstr('dest', 'nonempty', 'noendslash')
    e.head = e.newobj(Obj(Ext('head*'), {'name': e.sstr('headname', 'nonempty'), 'path': e.sstr('headpath', 'nonempty')}))
    e.skip = e.slist(TStr('nonempty', 'skip'), 'skip') if e.choose(2) == 0 else None
    e.log = e.newobj(Obj(Ext('log*'), {'opened': 0, 'wrote': 0, 'text': '', 'removed': False}))
    r = e.obj('restore.BagRestorer', _head=e.head, _inplace=False, _destdir=e.dest, _cachedir=e.sstr('cache', 'nonempty'), _fetcher=None)
    given = e.choose(2) == 0
    k, v = e.meth(r, 'restore_fetch', e.members if given else None, e.skip)
    e.oblige('returns', k == 'ret')
    if k != 'ret':
        return
    gone = e.measure(e.skip, 'cov') > 0 if e.skip is not None else z3.BoolVal(False)
    want = z3.And(OH(e.n), z3.Not(gone))
    g = e.log.attrs
    wrote = int_term(g['wrote'])
    e.oblige('a path listed by a member and not deleted is listed once, any other not at all', wrote == b2i(want))
    e.oblige('with the entry of the last member that lists it', z3.Implies(want, str_term(g['text']) == OT(e.n)))
    e.oblige('the list is written at most once', int_term(g['opened']) <= 1)
    e.oblige('the list is written or removed, not both', z3.Implies(int_term(g['opened']) > 0, z3.Not(bool_term(g['removed']))))
    if e.entails(int_term(g['opened']) == 0):
        e.cover('none')
        e.oblige('an earlier list does not stay', z3.Implies(z3.Bool('fetch.txt there*'), bool_term(g['removed'])))
        e.oblige('nothing was to be listed', z3.Not(want))
    else:
        e.cover('some')
