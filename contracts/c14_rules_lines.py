"""C14: the rules of the profile that concern the lines of the member list and of the file lookup list."""
from vc import *
import strs
import textmodel
from strs import uf
from ct_c10_headbag import S, I, B, b2i
from ct_c14_rules import (setup as rules_setup, bag, head, results, judge, values, ERROR, WARN, REC, BAG, ISDIR, ISFILE, BADURL, SCHEME, EMPTY)

STRIP = uf('strip_lr', S, S)
TABN, TABS = uf('split9_n', S, I), uf('split9', S, z3.ArraySort(I, S))
WSN, WSS = uf('wssplit_n', S, I), uf('wssplit', S, z3.ArraySort(I, S))
SLN, SLS = uf('split2f_n', S, I), uf('split2f', S, z3.ArraySort(I, S))
FIRST = z3.Function('first*', S, I)          # the first line of this name or path (the number of lines if there is none)
CNT = dict((k, z3.Function('upto:%s*' % k, I, I)) for k in ('url', 'fmt', 'me', 'rep', 'gone', 'unlisted'))
ANY = z3.Function('any upto*', I, B)
LAST = z3.Function('last upto*', I, S)


def sel(a, i):
    return z3.Select(a, z3.IntVal(i))


def fields(e, x, whole):
    """(number, first, second) of the fields of a line, stripped; whole: the line itself is not stripped before"""
    if e.old:
        y = STRIP(x)
        return WSN(y), sel(WSS(y), 0), sel(WSS(y), 1)
    y = x if whole else STRIP(x)
    return TABN(y), STRIP(sel(TABS(y), 0)), STRIP(sel(TABS(y), 1))


def key(e, x):
    return fields(e, x, e.lookup)[1]


def line_facts(e, j, x):
    """what the ghost functions say of line j, x its text: they are defined by what the lines before say and by that line"""
    n, k, second = fields(e, x, e.lookup)
    some = STRIP(x) != EMPTY
    a = e.assume
    if e.old:
        a(z3.Implies(some, n >= 1))
        a(STRIP(k) == k)
        a(STRIP(second) == second)
    me = str_term(e.name)
    bad = {'rep': FIRST(k) < j}
    if e.lookup:
        bad['fmt'] = n != 2
        bad['gone'] = z3.And(n > 1, second == me, z3.Not(ISFILE(k)))
    else:
        bad['me'] = k == me
        bad['url'] = z3.And(n > 1, second != EMPTY, z3.Or(BADURL(second), SCHEME(second) == EMPTY))
        if e.old:
            bad['fmt'] = n > 2
        else:
            bad['url'] = z3.And(bad['url'], z3.Not(z3.PrefixOf(z3.StringVal('#'), second)))
    for c, p in bad.items():
        a(CNT[c](j + 1) == CNT[c](j) + b2i(z3.And(some, p)))
    a(ANY(j + 1) == z3.Or(ANY(j), some))
    a(LAST(j + 1) == z3.If(some, k, LAST(j)))
    # the first line of a name
    a(z3.Implies(some, z3.And(FIRST(k) <= j, FIRST(k) >= 0)))
    for q in (e.K, k):
        a(z3.Implies(FIRST(q) == j, z3.And(some, q == k)))
    a(z3.Implies(z3.And(some, e.K == k), FIRST(e.K) <= j))


def file_facts(e, j, x):
    a = e.assume
    base = z3.Select(SLS(x), SLN(x) - 1)
    hidden = z3.Or(z3.PrefixOf(z3.StringVal('.'), base), z3.PrefixOf(z3.StringVal('_'), base))
    p = path_of(x)
    a(CNT['unlisted'](j + 1) == CNT['unlisted'](j) + b2i(z3.And(z3.Not(hidden), FIRST(p) >= e.n)))


def path_of(x):
    return z3.Concat(z3.StringVal('data/'), z3.SubString(x, 1, z3.Length(x)))


def setup(e):
    rules_setup(e)
    e.measures = []
    e.hooks.append(access)
    e.cands = [cands]

    def kinst(e, st):
        if st.seg is e.lines.segs[0]:
            return [key(e, st.seg.sel((), st.idx))]
        if e.files is not None and st.seg is e.files.segs[0]:
            return [path_of(st.seg.sel((), st.idx))]
        return []
    e.kinst = kinst
    e.K = z3.String('K*')
    m = e.models
    m[BAG + '.open_text_file'] = opened
    m['lines*.__enter__'] = lambda e, a, kw: a[0]
    m['lines*.__exit__'] = m['lines*.close'] = lambda e, a, kw: None
    m['iter:lines*'] = lambda e, a, kw: a[0].attrs['lines']
    m['root*.subfspath'] = subpath
    m['walk*.files'] = lambda e, a, kw: e.newobj(Iter(e.newobj(PList(list(e.files.segs)))))


def subpath(e, a, kw):
    e.oblige('the payload is looked at', e.eqt(a[1], 'data'))
    e.looked = True
    w = e.newobj(Obj(Ext('walk*'), {}))
    return e.newobj(Obj(Ext('fspath*'), {'fs': e.newobj(Obj(Ext('fs*'), {'walk': w}))}))


def opened(e, a, kw):
    e.oblige('the file of this version is read', e.eqt(a[1], e.tagfile))
    return e.newobj(Obj(Ext('lines*'), {'lines': e.newobj(PList(list(e.lines.segs)))}))


def access(e, seg, j, v):
    if seg is e.lines.segs[0]:
        line_facts(e, j, str_term(v))
    elif e.files is not None and seg is e.files.segs[0]:
        file_facts(e, j, str_term(v))


def cands(e, st):
    out = []
    lines = st.seg is e.lines.segs[0]
    files = e.files is not None and st.seg is e.files.segs[0]
    if not (lines or files):
        return out

    def nm(l):
        o = e.reg[l[0]]
        return '%s.%s' % (type(o).__name__, l[1]) if isinstance(o, Frame) else '%s#%d' % (type(o).__name__, l[0])
    for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
        for c, f in CNT.items():
            if x[0] == 'list':
                def ln(s, l=l, f=f):
                    v = s.summ(s.read(l))
                    return v[1]['n'] == f(s.idx) if v[0] == 'list' else z3.BoolVal(False)
                out.append(('%s: %s' % (nm(l), c), ln))
            elif x[0] == 'bool':
                def flag(s, l=l, f=f):
                    v = s.summ(s.read(l))
                    return v[1] == (f(s.idx) > 0) if v[0] == 'bool' else z3.BoolVal(False)
                out.append(('%s: %s' % (nm(l), c), flag))
    for l in st.H:
        o = e.reg[l[0]]
        if lines and isinstance(o, Frame):
            def last(s, l=l):
                v = s.read(l)
                if v is None:
                    return z3.Not(ANY(s.idx))
                if is_str(v):
                    return z3.And(ANY(s.idx), str_term(v) == LAST(s.idx))
                return z3.BoolVal(False)
            out.append(('%s: last' % nm(l), last))
    i = 0
    for u, o in sorted(e.reg.items()):
        if isinstance(o, PSet):
            def has(s, u=u):
                o = e.reg[u]
                return z3.Select(o.has, e.K) == (FIRST(e.K) < (s.idx if lines else e.n))
            i += 1
            out.append(('set %d' % i, has))
    for c, f in CNT.items():
        out.append(('%s counts' % c, lambda s, f=f: f(s.idx) >= 0))
    return out


def start(e, old, lookup):
    e.old, e.lookup = old, lookup
    e.files = None
    e.lines = e.slist(TStr('line'), 'lines')
    e.n = e.lines.segs[0].n
    e.files = e.slist(TStr(), 'files') if lookup else None
    e.looked = False
    for c, f in CNT.items():
        e.assume(f(0) == 0)
    e.assume(z3.Not(ANY(0)))
    e.assume(FIRST(e.K) >= 0)
    bag(e)
    e.setattr(e.bag, '_root', e.newobj(Obj(Ext('root*'), {})))
    e.mdir = e.sstr('mdir', 'nonempty')


def check(e, meth, name):
    e.tagfile = strs.concat(e.mdir, '/' + name)
    res = results(e)
    k, r = e.meth(head(e), meth, e.mdir, res, 7)
    e.oblige('never raises', k == 'ret')
    return res, ISFILE(str_term(e.tagfile))


def members(e, old, meth, name):
    start(e, old, False)
    res, there = check(e, meth, name)
    e.cover()
    n = e.n
    # any line is a member line of the current version
    fmt = z3.And(there, CNT['fmt'](n) > 0) if old else z3.BoolVal(False)
    judge(e, res, ('4.0-1', ERROR, z3.Not(there)), ('4.1-1', ERROR, fmt),
          ('4.1-2', ERROR, z3.And(there, CNT['url'](n) > 0)), ('4.1-3', ERROR, z3.And(there, CNT['me'](n) == 0)),
          ('4.1-4', ERROR, z3.And(there, z3.Not(z3.And(ANY(n), LAST(n) == str_term(e.name))))),
          ('4.1-5', WARN, z3.And(there, CNT['rep'](n) > 0)))


@contract('the lines of the member list', 'C14', setup=setup)
def members03(e):
    members(e, False, '_validate_member_bags_03', 'member-bags.tsv')


@contract('the lines of the older member list', 'C14', setup=setup)
def members02(e):
    members(e, True, '_validate_group_members', 'group-members.txt')


def lookups(e, old, meth, name):
    start(e, old, True)
    res, there = check(e, meth, name)
    e.cover()
    n = e.n
    judge(e, res, ('4.0-2', ERROR, z3.Not(there)), ('4.2-1', ERROR, z3.And(there, CNT['fmt'](n) > 0)),
          ('4.2-2', ERROR, z3.And(there, CNT['gone'](n) > 0)), ('4.2-3', WARN, z3.And(there, CNT['rep'](n) > 0)),
          ('4.2-4', REC, z3.And(there, CNT['unlisted'](e.files.segs[0].n) > 0)))


@contract('the lines of the lookup list', 'C14', setup=setup)
def lookup03(e):
    lookups(e, False, '_validate_file_lookup_03', 'file-lookup.tsv')


@contract('the lines of the older lookup list', 'C14', setup=setup)
def lookup02(e):
    lookups(e, True, '_validate_group_directory', 'group-directory.txt')


# ---------------------------------------------------------------- the versions a head bag deprecates
COMN, COMS = uf('split2c_n', S, I), uf('split2c', S, z3.ArraySort(I, S))
DEP = dict((k, z3.Function('deps upto:%s*' % k, I, I)) for k in ('fmt', 'self', 'some'))


def dep_access(e, seg, j, v):
    if e.values is not None and seg is e.values.segs[0]:
        x = str_term(v)
        n = COMN(x)
        me = STRIP(sel(COMS(x), 0)) == e.headver if e.headver is not None else z3.BoolVal(False)
        e.assume(DEP['fmt'](j + 1) == DEP['fmt'](j) + b2i(n > 2))
        e.assume(DEP['self'](j + 1) == DEP['self'](j) + b2i(z3.Or(me, z3.And(n > 1, STRIP(sel(COMS(x), 1)) == str_term(e.name)))))
        e.assume(DEP['some'](j + 1) == DEP['some'](j) + b2i(x != EMPTY))


def dep_cands(e, st):
    out = []
    if e.values is None or st.seg is not e.values.segs[0]:
        return out
    for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
        for c, f in DEP.items():
            nm = '%s %d' % (c, len(out))
            if x[0] == 'list':
                def ln(s, l=l, f=f):
                    v = s.summ(s.read(l))
                    return v[1]['n'] == f(s.idx) if v[0] == 'list' else z3.BoolVal(False)
                out.append((nm, ln))
            elif x[0] == 'bool':
                for w in (True, False):
                    def flag(s, l=l, f=f, w=w):
                        v = s.summ(s.read(l))
                        return v[1] == ((f(s.idx) > 0) == w) if v[0] == 'bool' else z3.BoolVal(False)
                    out.append(('%s %s' % (nm, w), flag))
    for c, f in DEP.items():
        out.append((c + ' counts', lambda s, f=f: f(s.idx) >= 0))
    out.append(('the first', lambda s: z3.Implies(z3.And(s.idx > 0, e.values.segs[0].sel((), z3.IntVal(0)) != EMPTY), DEP['some'](s.idx) > 0)))
    return out


def dep_setup(e):
    rules_setup(e)
    e.measures = []
    e.hooks.append(dep_access)
    e.cands = [dep_cands]


@contract('the versions a head bag deprecates', 'C14', setup=dep_setup)
def deprecates(e):
    e.values = None
    (hthere, hn, hlast, hv), (there, n, last, v) = bag(e, 'Multibag-Head-Version', 'Multibag-Head-Deprecates')
    e.headver = hlast if hthere else None
    if isinstance(v, PList):
        e.values = v
    for f in DEP.values():
        e.assume(f(0) == 0)
    res = results(e)
    k, r = e.meth(head(e), 'validate_head_deprecates', 7, res, '0.4')
    e.oblige('never raises', k == 'ret')
    e.cover()
    if not there:
        judge(e, res)
        return
    if isinstance(v, PList):
        first = v.segs[0].sel((), z3.IntVal(0))
        fmt, me = DEP['fmt'](n) > 0, DEP['self'](n) > 0
    else:
        first = last
        me = STRIP(sel(COMS(last), 0)) == e.headver if hthere else z3.BoolVal(False)
        fmt, me = COMN(last) > 2, z3.Or(me, z3.And(COMN(last) > 1, STRIP(sel(COMS(last), 1)) == str_term(e.name)))
    some = first != EMPTY
    judge(e, res, ('3-Head-Deprecates_notempty', WARN, z3.Not(some)), ('3-Head-Deprecates_format', ERROR, z3.And(some, fmt)),
          ('3-Head-Deprecates_notselfdep', WARN, z3.And(some, me)))


# ---------------------------------------------------------------- which rules are applied
HV, MV = 'validate.headbag.HeadBagValidator.', 'validate.member.MemberBagValidator.'
LISTS = ('_validate_group_members', '_validate_member_bags_03', '_validate_group_directory', '_validate_file_lookup_03')


def lists_setup(e):
    rules_setup(e)

    def called(n):
        def f(e, fn, args, kw):
            e.called.append((n, list(args[1:])))
            return args[2]
        return f
    for n in LISTS:
        e.summaries[HV + n] = called(n)


@contract('the lists of a head bag that are looked at', 'C14', setup=lists_setup)
def which_lists(e):
    (there, n, last, v), = bag(e, 'Multibag-Tag-Directory')
    e.called = []
    kind = e.choose(2)
    old = e.choose(2) == 1
    ver = '0.2'
    if not old:
        ver = e.sstr('version')
        e.assume(str_term(ver) != z3.StringVal('0.2'))
    res = results(e)
    k, r = e.meth(head(e), ('validate_member_bags', 'validate_file_lookup')[kind], 7, res, ver)
    e.oblige('never raises', k == 'ret')
    e.oblige('the results given are extended', r is res)
    e.cover()
    d = z3.If(last == EMPTY, z3.StringVal('multibag'), last) if there else z3.StringVal('multibag')
    judge(e, res, ('3-Tag-Directory', ERROR, z3.Not(ISDIR(d))))
    e.oblige('looked at once, if the directory is there', z3.If(ISDIR(d), len(e.called) == 1, len(e.called) == 0))
    for m, a in e.called:
        e.oblige('the list of this version', m == LISTS[2 * kind + (0 if old else 1)])
        e.oblige('in the tag directory', e.eqt(a[0], SStr([Atom(d)])))
        e.oblige('its problems are added', a[1] is res)


RULES = ('validate_version', 'validate_reference', 'validate_tag_directory', 'validate_head_version', 'validate_head_deprecates',
         'validate_baginfo_recs', 'validate_member_bags', 'validate_file_lookup', 'validate_aggregation_info')


def whole_setup(e):
    rules_setup(e)

    def called(n):
        def f(e, fn, args, kw):
            e.called.append((n, list(args[1:])))
            return args[2] if len(args) > 2 else kw.get('results')
        return f
    for n in RULES:
        e.summaries[HV + n] = called(n)
    for n in ('validate_bagname', 'validate_as_nonhead'):
        e.summaries[MV + n] = called(n)
    e.summaries['validate.bag.BagValidator.validate'] = called('bag')
    e.summaries['validate.bag.BagValidator.__init__'] = lambda e, fn, a, kw: e.called.append(('BagValidator', list(a[1:])))


@contract('the rules applied to a head bag', 'C14', setup=whole_setup)
def all_rules(e):
    (there, n, last, v), = bag(e, 'Multibag-Version')
    e.called = []
    val = head(e)
    given = e.choose(2)
    res = results(e)
    k, r = e.meth(val, 'validate', 7, *([res] if given else []))
    e.oblige('never raises', k == 'ret')
    e.cover()
    out = res if given else r
    e.oblige('the results are returned', r is out and isinstance(r, Obj) and r.cls is e.get('validate.base.ValidationResults'))
    names = [n for n, a in e.called]
    e.oblige('validity as a bag is checked, of the bag itself', names.count('bag') == 1 and names.count('BagValidator') == 1)
    for n in RULES:
        e.oblige('applied once: ' + n, names.count(n) == 1)
    for n, a in e.called:
        if n == 'BagValidator':
            e.oblige('validity as a bag is checked, of the bag itself', e.eqt(a[0], val.attrs['bagpath']))
        else:
            e.oblige('problems found are added to the results', len(a) > 1 and a[1] is out)
            if n != 'bag' and there:
                e.oblige('by the rules of the version declared', e.eqt(a[2], SStr([Atom(last)])))


def bag_setup(e):
    rules_setup(e)

    def validate(e, a, kw):
        how = e.choose(3)
        e.valid = how == 0
        if how:
            cls = Ext('bagit.BagValidationError' if how == 1 else 'bagit.BagError')
            x = e.newobj(Obj(cls, {'message': e.sstr('msg'), 'details': e.slist(TStr(), 'details'), 'args': (e.sstr('msg'),)}))
            raise PyRaise(x)
    e.models[BAG + '.validate'] = validate


@contract('validity as a bag', 'C14', setup=bag_setup)
def valid_bag(e):
    bag(e)
    e.valid = None
    v = e.obj('validate.bag.BagValidator', target=e.sstr('target'), bag=e.bag)
    want = e.choose(8)
    res = results(e)
    k, r = e.meth(v, 'validate', want, res)
    e.oblige('never raises', k == 'ret')
    e.oblige('the results given are extended', r is res)
    e.cover()
    if want & 1:
        e.oblige('the bag is validated', e.valid is not None)
        judge(e, res, ('2-Bag', ERROR, z3.BoolVal(not e.valid)))
    else:
        judge(e, res)


@contract('the rules applied to a member bag', 'C14', setup=whole_setup)
def member_rules(e):
    """(without results to extend, the problems found by the single rules are lost: known finding C14-1)"""
    from ct_c14_rules import member
    (there, n, last, v), = bag(e, 'Multibag-Version')
    e.called = []
    val = member(e)
    given = e.choose(2)
    res = results(e)
    k, r = e.meth(val, 'validate', 7, *([res] if given else []))
    e.oblige('never raises', k == 'ret')
    e.cover()
    out = res if given else r
    e.oblige('the results are returned', r is out and isinstance(r, Obj) and r.cls is e.get('validate.base.ValidationResults'))
    names = [n for n, a in e.called]
    some = z3.And(bool(there), last != EMPTY)
    judge(e, out, ('3-Version-for-member', REC, z3.Not(some)))
    e.oblige('validity as a bag is checked, of the bag itself', names.count('bag') == 1 and names.count('BagValidator') == 1)
    for n in ('validate_bagname', 'validate_as_nonhead'):
        e.oblige('applied once to a bag with a version: ' + n, z3.If(some, names.count(n) == 1, names.count(n) == 0))
    for n, a in e.called:
        if n == 'BagValidator':
            e.oblige('validity as a bag is checked, of the bag itself', e.eqt(a[0], val.attrs['bagpath']))
        elif n == 'bag':
            e.oblige('problems found are added to the results', a[1] is out)
        else:
            if given:
                e.oblige('problems found are added to the results', a[1] is out)
            e.oblige('by the rules of the version declared', e.eqt(a[2], SStr([Atom(last)])))


def agg_setup(e):
    rules_setup(e)

    def load(e, fn, args, kw):
        e.loaded.append(args[0])
        if e.choose(2):
            e.unread = True
            raise PyRaise(e.newobj(Obj(Ext('bagit.BagError'), {'args': (e.sstr('msg'),)})))
        return e.newobj(PDict({}))
    e.models['bagit._load_tag_file'] = lambda e, a, kw: load(e, None, a, kw)
    e.summaries['access.bagit._load_tag_file'] = load
    e.models['root*.relpath'] = lambda e, a, kw: e.newobj(Obj(Ext('fspath*'), {'p': a[1]}))


@contract('the aggregation info of a head bag', 'C14', setup=agg_setup)
def agginfo(e):
    from ct_c14_rules import EXISTS
    (there, n, last, v), = bag(e, 'Multibag-Tag-Directory')
    e.setattr(e.bag, '_root', e.newobj(Obj(Ext('root*'), {})))
    e.loaded, e.unread = [], False
    ver = e.sstr('version')
    res = results(e)
    k, r = e.meth(head(e), 'validate_aggregation_info', 7, res, ver)
    e.oblige('never raises', k == 'ret')
    e.cover()
    d = z3.If(last == EMPTY, z3.StringVal('multibag'), last) if there else z3.StringVal('multibag')
    p = z3.Concat(d, z3.StringVal('/aggregation-info.txt'))
    old = z3.Or(str_term(ver) == z3.StringVal('0.2'), str_term(ver) == z3.StringVal('0.3'))
    e.oblige('read if it is there and of this version', z3.If(z3.And(z3.Not(old), EXISTS(p)), len(e.loaded) == 1, len(e.loaded) == 0))
    for h in e.loaded:
        e.oblige('this file is read', e.eqt(h.attrs['p'], SStr([Atom(p)])))
    judge(e, res, ('4.4-1', ERROR, z3.BoolVal(e.unread)))
