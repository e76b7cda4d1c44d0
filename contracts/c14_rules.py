"""C14: the rules of the profile that concern bag-info.txt, the name and the presence of files."""
from vc import *
import strs
from strs import uf
from ct_c10_headbag import S, I, B, b2i

ERROR, WARN, REC = 1, 2, 4
BAG = 'bag*'
ISDIR, ISFILE, EXISTS = (z3.Function(n, S, B) for n in ('isdir*', 'isfile*', 'exists*'))
BADURL, SCHEME, NETLOC = z3.Function('badurl*', S, B), z3.Function('scheme*', S, S), z3.Function('netloc*', S, S)
EMPTY = z3.StringVal('')
LOOPED = ['2-Tag-Directory', '2-Head-Deprecates']      # labels of tests recorded in loops over unknown numbers of things


def parse_url(e, a, kw):
    """urlparse(): fails with ValueError for some texts, else gives some scheme and netloc"""
    u = a[0]
    if isinstance(u, str) and u == '':
        return e.newobj(Obj(Ext('url*'), {'scheme': '', 'netloc': ''}))
    if not is_str(u):
        raise Unsupported('urlparse of a value that may not be a string')
    if e.decide(BADURL(str_term(u))):
        raise e.pyexc('ValueError', 'url')
    return e.newobj(Obj(Ext('url*'), {'scheme': SStr([Atom(SCHEME(str_term(u)))]), 'netloc': SStr([Atom(NETLOC(str_term(u)))])}))


def absolute(t):
    return z3.And(z3.Not(BADURL(t)), SCHEME(t) != EMPTY, NETLOC(t) != EMPTY)


def setup(e):
    m = e.models
    m['urllib.parse.urlparse'] = m['urlparse.urlparse'] = parse_url
    for n, f in (('isdir', ISDIR), ('isfile', ISFILE), ('exists', EXISTS)):
        m['%s.%s' % (BAG, n)] = lambda e, a, kw, f=f: wrap_bool(f(str_term(a[1])))
    m[BAG + '.__str__'] = lambda e, a, kw: e.sstr('bagstr')
    m[BAG + '.is_head_multibag'] = lambda e, a, kw: wrap_bool(e.ishead)
    cls = e.get('validate.base.ValidationIssue')

    empty = Measure('empty', lambda sh: sh is not None and sh.k == 'str' and 'value' in sh.tags, lambda e, v: b2i(str_term(v) == EMPTY), unit=True)
    empty.falsy = 'str'
    there = Measure('there', lambda sh: sh is not None and sh.k == 'str' and 'value' in sh.tags, lambda e, v: b2i(EXISTS(str_term(v))), unit=True)
    isi = lambda sh: sh is not None and sh.k == 'rec' and sh.cls is cls and '_passed' in sh.fields

    def bad(label):
        return Measure('bad:' + label, isi, lambda e, v: b2i(z3.And(z3.Not(bool_term(e.truth(v.attrs['_passed']))),
                                                                    str_term(v.attrs['_lab']) == z3.StringVal(label))), unit=True)
    e.measures = [Measure('anybad', isi, lambda e, v: b2i(z3.Not(bool_term(e.truth(v.attrs['_passed'])))), unit=True), there, empty,
                  *[bad(l) for l in LOOPED]]


def values(e, key, d):
    """what bag-info.txt says of a key: (given, number, last, the list)"""
    how = e.choose(3)
    if how == 0:
        return False, z3.IntVal(0), EMPTY, None
    if how == 1:
        d[key] = v = e.sstr('v' + key, 'value')
        return True, z3.IntVal(1), str_term(v), v
    d[key] = l = e.slist(TStr('value'), 'l' + key)
    n = l.segs[0].n
    e.assume(n >= 2)
    return True, n, l.segs[0].sel((), n - 1), l


def bag(e, *keys):
    d = {}
    got = [values(e, k, d) for k in keys]
    info = e.newobj(PDict(d))
    e.name = e.sstr('bagname', 'nonempty')
    e.bag = e.newobj(Obj(Ext(BAG), {'info': info, '_name': e.name, 'name': e.name}))
    return got


def results(e):
    return e.obj('validate.base.ValidationResults', target=e.sstr('target'), want=7, defversion=e.sstr('ver'),
                 results=e.newobj(PDict({1: e.mk([]), 2: e.mk([]), 4: e.mk([])})))


def failed(e, res, sev, label):
    """is a failed test of this label and severity recorded?"""
    out = []
    for s in res.attrs['results'].d[sev].segs:
        if isinstance(s, El):
            v = s.v
            out.append(z3.And(z3.Not(bool_term(e.truth(v.attrs['_passed']))), str_term(v.attrs['_lab']) == z3.StringVal(label)))
        else:
            out.append(s.meas['bad:' + label] > 0)
    return z3.Or(*out) if out else z3.BoolVal(False)


def judge(e, res, *rules):
    """each rule: (label, severity, violated); every other test passes"""
    for label, sev, viol in rules:
        f = failed(e, res, sev, label)
        nm = '%s (%s)' % (label, {1: 'error', 2: 'warning', 4: 'recommendation'}[sev])
        e.oblige(nm + ' reported if violated', z3.Implies(viol, f))
        e.oblige(nm + ' reported only if violated', z3.Implies(f, viol))
    for sev in (1, 2, 4):
        known = [z3.StringVal(l) for l, s, _ in rules if s == sev]
        for s in res.attrs['results'].d[sev].segs:
            if isinstance(s, El):
                v = s.v
                e.oblige('no other problem is reported', z3.Or(bool_term(e.truth(v.attrs['_passed'])), *[str_term(v.attrs['_lab']) == k for k in known]))
                e.oblige('recorded under its severity', e.eqt(v.attrs['_type'], sev))
            else:
                e.oblige('no other problem is reported', s.meas['anybad'] == z3.Sum(z3.IntVal(0), *[s.meas['bad:' + l] for l, v, _ in rules if v == sev]))


def head(e):
    return e.obj('validate.headbag.HeadBagValidator', target=e.sstr('target'), bagpath=e.sstr('bagpath'), bag=e.bag)


def run(e, v, meth, version='0.4'):
    res = results(e)
    k, r = e.meth(v, meth, 7, res, version)
    e.oblige('never raises', k == 'ret')
    e.oblige('the results given are extended', r is res)
    return res


@contract('the version of a head bag', 'C14', setup=setup)
def version(e):
    (there, n, last, v), = bag(e, 'Multibag-Version')
    want = e.sstr('want')
    some = there and (z3.BoolVal(True) if isinstance(v, PList) else last != EMPTY)
    res = run(e, head(e), 'validate_version', want)
    e.cover()
    judge(e, res, ('3-Version', ERROR, z3.Not(some)), ('3-Version', WARN, z3.And(some, n > 1)),
          ('3-Version-val', ERROR, z3.And(some, last != str_term(want))))


@contract('the reference of a head bag', 'C14', setup=setup)
def reference(e):
    (there, n, last, v), = bag(e, 'Multibag-Reference')
    some = there and (z3.BoolVal(True) if isinstance(v, PList) else last != EMPTY)
    res = run(e, head(e), 'validate_reference')
    e.cover()
    judge(e, res, ('3-Reference', REC, z3.Not(some)),
          ('3-Reference-val', ERROR, z3.And(some, z3.Or(last == EMPTY, z3.Not(absolute(last))))))


@contract('the tag directory of a head bag', 'C14', setup=setup)
def tagdir(e):
    (there, n, last, v), = bag(e, 'Multibag-Tag-Directory')
    res = run(e, head(e), 'validate_tag_directory')
    e.cover()
    d = last if there else z3.StringVal('multibag')
    judge(e, res, ('3-Tag-Directory', ERROR, z3.Or(n > 1, z3.Not(ISDIR(d)), d == EMPTY)))


@contract('the head version of a head bag', 'C14', setup=setup)
def headversion(e):
    (there, n, last, v), = bag(e, 'Multibag-Head-Version')
    res = run(e, head(e), 'validate_head_version')
    e.cover()
    t = z3.BoolVal(bool(there))
    judge(e, res, ('3-Head-Version', ERROR, z3.Not(t)), ('3-Head-Version_nonempty', WARN, z3.And(t, last == EMPTY)),
          ('3-Head-Version_single', WARN, z3.And(t, n > 1)))


@contract('recommended entries of a head bag', 'C14', setup=setup)
def recs(e):
    keys = ["Internal-Sender-Identifier", "Internal-Sender-Description", "Bag-Group-Identifier"]
    got = bag(e, *keys)
    res = run(e, head(e), 'validate_baginfo_recs')
    e.cover()
    rec, err = [], []
    for there, n, last, v in got:
        miss = z3.Or(not there, last == EMPTY)
        rec.append(miss)
        if isinstance(v, PList):
            err.append(z3.And(z3.Not(miss), e.measure(v, 'empty') > 0))
    judge(e, res, ('3-2', REC, z3.Or(*rec)), ('3-2', ERROR, z3.Or(*err) if err else z3.BoolVal(False)))


WSL, WSR = uf('ws_left*', S, B), uf('ws_right*', S, B)


def member(e):
    return e.obj('validate.member.MemberBagValidator', target=e.sstr('target'), bagpath=e.sstr('bagpath'), bag=e.bag)


@contract('head-only entries of a member bag', 'C14', setup=setup)
def nonhead(e):
    dep, tag = bag(e, 'Multibag-Head-Deprecates', 'Multibag-Tag-Directory')
    e.ishead = z3.Bool('ishead*')
    res = run(e, member(e), 'validate_as_nonhead')
    e.cover()
    no = z3.Not(e.ishead)
    there, n, last, v = tag
    d = last if there else z3.StringVal('multibag')
    if isinstance(v, PList):
        left = e.measure(v, 'there') > 0
    else:
        left = EXISTS(z3.If(d == EMPTY, z3.StringVal('multibag'), d))
    judge(e, res, ('2-Head-Deprecates', WARN, z3.And(no, bool(dep[0]))), ('2-Tag-Directory', WARN, z3.And(no, z3.Or(bool(there), left))))


@contract('the name of a member bag', 'C14', setup=setup)
def bagname(e):
    bag(e)
    old = e.choose(2) == 1
    t = str_term(e.name)
    ws = z3.Union(*[z3.Re(z3.StringVal(strs.zesc(c))) for c in ' \t\n\r\x0b\x0c'])
    full = z3.Full(z3.ReSort(S))
    around = z3.Or(z3.InRe(t, z3.Concat(ws, full)), z3.InRe(t, z3.Concat(full, ws)))
    e.assume((uf('strip_lr', S, S)(t) == t) == z3.Not(around))
    ver = '0.2'
    if not old:
        ver = e.sstr('version')
        e.assume(str_term(ver) != z3.StringVal('0.2'))
    res = run(e, member(e), 'validate_bagname', ver)
    e.cover()
    if old:
        judge(e, res)
    else:
        judge(e, res, ('2.1a-name-TAB', ERROR, z3.Contains(t, z3.StringVal(strs.zesc('\t')))), ('2.1b-name-wsp', ERROR, around))
