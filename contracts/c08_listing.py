"""C08: the files of a bag entered into the file lookup (update_for_member), what the amending contracts assume of it; and making a
bag the only member of an aggregation (SingleMultibagMaker)."""
from vc import *
from strs import uf
from ct_c06_restore import is_k, is_kr, b2i, FN

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
DIR = TStr('nonempty', 'root', 'noslash0', 'noendslash')


def g(e, k):
    return e.log.attrs[k]


def setup(e):
    e.KF = z3.String('KF*')
    e.KR = SStr([Atom(z3.String('KR*'), ['nonempty', 'root', 'noslash0', 'noendslash'])])
    e.jfree = True
    e.merge = True
    isfn = lambda sh: sh.k == 'str' and 'fn' in sh.tags
    row = lambda sh: sh.k == 'tuple' and len(sh.els) == 3
    e.measures = [Measure('kf', isfn, lambda e, v: b2i(str_term(v) == e.KF), unit=True),
                  Measure('sr', row, lambda e, v: z3.If(is_kr(e, v[0]), e.measure(v[2], 'kf'), z3.IntVal(0)))]
    e.hooks = [cases]
    e.cands = [cands]
    M = e.models
    M['bag*.isfile'] = lambda e, a, kw: SBool(uf('isfile*', S, B)(str_term(a[1])))
    M['bag*.isdir'] = lambda e, a, kw: SBool(uf('isdir*', S, B)(str_term(a[1])))
    M['bag*.walk'] = walk
    sm = e.summaries
    sm['access.extended.as_extended'] = lambda e, fn, a, kw: a[0]
    sm['access.multibag.HeadBagUpdateMixin.add_member_bag'] = added
    sm['access.multibag.HeadBagUpdateMixin.add_file_lookup'] = listed


def cases(e, seg, j, v):
    if seg.shape.k == 'tuple':
        e.decide(is_kr(e, v[0]))
    elif seg.shape.k == 'str' and 'fn' in seg.shape.tags:
        e.decide(str_term(v) == e.KF)


def walk(e, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start')
    e.oblige('what is walked through is the payload', start == 'data')
    return e.newobj(Iter(e.newobj(PList(list(e.walk.segs)))))


def added(e, fn, a, kw):
    e.oblige('made a member under its name', z3.And(e.eqt(a[1], e.name), z3.BoolVal(len(a) == 2 and not kw and g(e, 'mem') == 0 and g(e, 'n') is False)))
    e.setattr(e.log, 'mem', g(e, 'mem') + 1)


def listed(e, fn, a, kw):
    e.setattr(e.log, 'n', True)
    q = is_k(e, a[1])
    if q is None:
        q = str_term(a[1]) == z3.Concat(str_term(e.KR), z3.StringVal('/'), e.KF)
    if e.decide(q):
        e.setattr(e.log, 'has', True)
        e.setattr(e.log, 'val', a[2])


def cands(e, st):
    out = []
    h, v = (e.log.uid, 'has'), (e.log.uid, 'val')
    for m in ('sr', 'kf'):
        if st.seg is not None and m in st.seg.meas:
            def now(s, m=m):
                x = s.seg.prefix(m)(s.idx) > 0
                h0 = st.entry.get(h)
                v0 = st.entry.get(v)
                h0 = h0[1] if h0 is not None else bool_term(g(e, 'has'))
                v0 = v0[1] if v0 is not None else str_term(g(e, 'val'))
                return z3.And(bool_term(s.read(h)) == z3.Or(h0, x), str_term(s.read(v)) == z3.If(x, str_term(e.name), v0))
            out.append(('listed so far ' + m, now))
    return out


def start(e):
    e.walk = e.slist(TTuple(DIR, TList(FN), TList(FN)), 'walk')
    e.has0 = z3.Bool('has0*')
    e.val0 = e.sstr('val0', 'nonempty')
    e.log = e.newobj(Obj(Ext('log*'), {'has': SBool(e.has0), 'val': e.val0, 'mem': 0, 'n': False}))
    e.bagname = e.sstr('bagname', 'nonempty')
    e.bag = e.newobj(Obj(Ext('bag*'), {'name': e.bagname}))
    e.sr = e.measure(e.walk, 'sr')
    # payload files are found only where there is a payload directory
    isf, isd = uf('isfile*', S, B)(z3.StringVal('data')), uf('isdir*', S, B)(z3.StringVal('data'))
    e.assume(z3.And(z3.Not(z3.And(isf, isd)), z3.Implies(e.sr > 0, isd)))


@contract('listing the files of a bag', 'C08 C10', setup=setup, covers=('member', 'not a member', 'other name'))
def _(e):
    """for any path: after update_for_member() the lookup has it under the bag's name if it is a payload file of the bag, and as it was
    otherwise; the bag is made a member (once, before its files are listed) exactly if asked to"""
    start(e)
    h = e.obj('access.multibag.HeadBag')
    mk = e.choose(3)
    kw = {}
    e.name = e.bagname
    if mk == 0:
        e.cover('member')
    elif mk == 1:
        e.cover('not a member')
        kw['make_member'] = False
    else:
        e.cover('other name')
        e.name = e.sstr('given', 'nonempty')
        kw['member_name'] = e.name
    k, v = e.meth(h, 'update_for_member', e.bag, **kw)
    e.oblige('returns', k == 'ret')
    if k != 'ret':
        return
    e.oblige('it is a member if asked for', g(e, 'mem') == (0 if mk == 1 else 1))
    e.oblige('a payload file is listed, nothing is taken off', bool_term(g(e, 'has')) == z3.Or(e.has0, e.sr > 0))
    e.oblige('under the name of the bag, others as they were', str_term(g(e, 'val')) == z3.If(e.sr > 0, str_term(e.name), str_term(e.val0)))
