"""C13: validation results: recording, selecting, verdicts."""
from vc import *

COMM = TStr()


def issue_shape(e, typ):
    return TRec({'_pver': TStr(), '_lab': TStr(), '_spec': TStr(), '_type': TInt, '_passed': TBool, '_comm': TList(TStr()), 'id*': TInt},
                cls=e.get('validate.base.ValidationIssue'))


def issue(e, typ, base='i'):
    o = e.fresh(issue_shape(e, typ), base)
    o.attrs['_type'] = typ
    return o


def results(e, want=None):
    """recorded results: three runs of any issues, those of each run of that run's type"""
    d = {}
    for t in (1, 2, 4):
        sh = issue_shape(e, t)
        sh.fields['_type'] = TConst(t)
        d[t] = e.slist(sh, 'r%d' % t)
    return e.obj('validate.base.ValidationResults', target=e.sstr('target'), want=want, defversion=e.sstr('ver'), results=e.newobj(PDict(d)))


def measures(e):
    e.W = z3.Int('W*')
    cls = e.get('validate.base.ValidationIssue')

    def ap(sh):
        return sh.k == 'rec' and sh.cls is cls and 'id*' in sh.fields

    def b2i(c):
        return z3.If(c, z3.IntVal(1), z3.IntVal(0))
    e.measures = [
        Measure('failed', ap, lambda e, v: b2i(z3.Not(bool_term(v.attrs['_passed']))), unit=True),
        Measure('passed', ap, lambda e, v: b2i(bool_term(v.attrs['_passed'])), unit=True),
        Measure('w-failed', ap, lambda e, v: b2i(z3.And(int_term(v.attrs['id*']) == e.W, z3.Not(bool_term(v.attrs['_passed'])))), unit=True),
        Measure('w-passed', ap, lambda e, v: b2i(z3.And(int_term(v.attrs['id*']) == e.W, bool_term(v.attrs['_passed']))), unit=True)]


def tot(e, res, mask, m):
    t = z3.IntVal(0)
    for k in (1, 2, 4):
        if k & mask:
            t = t + e.measure(res.attrs['results'].d[k], m)
    return t


def counts(e, res, mask):
    """every recorded test is passed or failed"""
    for k in (1, 2, 4):
        l = res.attrs['results'].d[k]
        e.assume(e.measure(l, 'failed') + e.measure(l, 'passed') == int_term(e.length(l)))


@contract('selection of results', 'C13', setup=measures)
def select(e):
    """applied/passed/failed of any combination of types: exactly the recorded tests of these types and that status"""
    mask = e.choose(8)
    res = results(e, 7)
    counts(e, res, mask)
    n = z3.IntVal(0)
    for k in (1, 2, 4):
        if k & mask:
            n = n + int_term(e.length(res.attrs['results'].d[k]))
    before = dict((k, list(v.segs)) for k, v in res.attrs['results'].d.items())
    which = e.choose(3)
    if which == 0:
        k, l = e.meth(res, 'applied', mask)
        e.oblige('applied returns', k == 'ret')
        e.oblige('applied: as many as recorded', int_term(e.length(l)) == n)
        for m in ('w-failed', 'w-passed'):
            e.oblige('applied: each recorded test once', e.measure(l, m) == tot(e, res, mask, m))
        e.oblige('applied: a list of its own', all(l is not x for x in res.attrs['results'].d.values()))
        k, c = e.meth(res, 'count_applied', mask)
        e.oblige('count_applied: as many as recorded', z3.And(k == 'ret', int_term(c) == n))
    else:
        nm, ot = ('failed', 'passed') if which == 1 else ('passed', 'failed')
        k, l = e.meth(res, nm, mask)
        e.oblige(nm + ' returns', k == 'ret')
        e.oblige(nm + ': number', int_term(e.length(l)) == tot(e, res, mask, nm))
        e.oblige(nm + ': each such test once', e.measure(l, 'w-' + nm) == tot(e, res, mask, 'w-' + nm))
        e.oblige(nm + ': no other test', e.measure(l, 'w-' + ot) == 0)
        e.oblige(nm + ': a list of its own', all(l is not x for x in res.attrs['results'].d.values()))
        k, c = e.meth(res, 'count_' + nm, mask)
        e.oblige('count_%s: number' % nm, z3.And(k == 'ret', int_term(c) == tot(e, res, mask, nm)))
    after = dict((k, list(v.segs)) for k, v in res.attrs['results'].d.items())
    e.oblige('selecting changes nothing', before == after)
    e.cover()


@contract('verdict of results', 'C13', setup=measures)
def verdict(e):
    """ok() holds exactly if no recorded test of a wanted type failed"""
    want = e.choose(8)
    res = results(e, want)
    counts(e, res, want)
    k, r = e.meth(res, 'ok')
    e.oblige('ok: no wanted test failed', z3.And(k == 'ret', bool_term(r) == (tot(e, res, want, 'failed') == 0)))
    e.cover()


def comments(e, base='c'):
    """None, nothing, one text, or a list or tuple of texts; with the texts as a list"""
    k = e.choose(5)
    if k == 0:
        return None, e.mk([])
    if k == 1:
        s = e.sstr(base, 'nonempty')
        return s, e.mk([s])
    if k == 2:
        return '', e.mk([])
    l = e.slist(TStr(), base)
    if k == 4:
        l.kind = 'tuple'
    return l, e.newobj(PList(list(l.segs)))


def cat(e, *ls):
    return e.newobj(PList([s for l in ls for s in l.segs]))


@contract('recording a result', 'C13', covers=('error', 'warning', 'rec'))
def record(e):
    """_err/_warn/_rec append one entry of that type, status, label, explanation and comments, and keep the others"""
    t = e.choose(3)
    typ = [1, 2, 4][t]
    res = results(e, 7)
    before = dict((k, list(v.segs)) for k, v in res.attrs['results'].d.items())
    iss = issue(e, e.fresh(TInt, 'type'))
    old = e.newobj(PList(list(iss.attrs['_comm'].segs)))
    lab, spec, ver = iss.attrs['_lab'], iss.attrs['_spec'], iss.attrs['_pver']
    c, cl = comments(e)
    p = [e.sbool('passed'), None, e.sint('pi'), e.sstr('ps')][e.choose(4)]
    k, r = e.meth(res, ['_err', '_warn', '_rec'][t], iss, p, c)
    e.oblige('recording does not raise', k == 'ret')
    after = res.attrs['results'].d
    for x in (1, 2, 4):
        if x == typ:
            e.oblige('the test is recorded once, under its type, and the others stay', after[x].segs[:-1] == before[x] and isinstance(after[x].segs[-1], El))
            new = after[x].segs[-1].v
            e.oblige('the entry is a test issue', isinstance(new, Obj) and new.cls is e.get('validate.base.ValidationIssue'))
            e.oblige('type', e.eqt(e.meth(new, 'type')[1], typ))
            e.oblige('status', bool_term(e.truth(e.meth(new, 'passed')[1])) == bool_term(e.truth(p)))
            e.oblige('not failed and passed', bool_term(e.truth(e.meth(new, 'failed')[1])) == z3.Not(bool_term(e.truth(p))))
            e.oblige('label', e.eqt(e.meth(new, 'label')[1], lab))
            e.oblige('explanation', e.eqt(e.meth(new, 'specification')[1], spec))
            e.oblige('version', e.eqt(e.meth(new, 'profile_version')[1], ver))
            k, cs = e.meth(new, 'comments')
            e.same_elems('comments', e.to_list(cs), cat(e, old, cl))
            e.oblige('the entry is independent of the issue passed in', new is not iss and new.attrs['_comm'] is not iss.attrs['_comm'])
        else:
            e.oblige('the other types are as before', after[x].segs == before[x])
    e.cover(['error', 'warning', 'rec'][t])


@contract('a test issue as a tuple', 'C13')
def tuples(e):
    """from_tuple(to_tuple()) has the same type, version, label, explanation, status and comments"""
    typ = [1, 2, 4][e.choose(3)]
    iss = issue(e, typ)
    old = e.newobj(PList(list(iss.attrs['_comm'].segs)))
    k, t = e.meth(iss, 'to_tuple')
    e.oblige('to_tuple returns', k == 'ret')
    k, new = e.do('validate.base.ValidationIssue.from_tuple', e.get('validate.base.ValidationIssue'), t)
    e.oblige('from_tuple returns', k == 'ret')
    for f in ('type', 'label', 'specification', 'profile_version', 'passed', 'failed'):
        e.oblige('same ' + f, e.eqt(e.meth(new, f)[1], e.meth(iss, f)[1]))
    k, cs = e.meth(new, 'comments')
    e.same_elems('same comments', e.to_list(cs), old)
    e.cover()


@contract('a new test issue', 'C13', covers=('good', 'bad'))
def ctor(e):
    """the constructor keeps what it is given; an unknown type is refused"""
    c, cl = comments(e)
    lab, spec, ver, p = e.sstr('l'), e.sstr('s'), e.sstr('v'), e.sbool('p')
    typ = e.sint('type')
    good = z3.Or(typ.t == 1, typ.t == 2, typ.t == 4)
    k, new = e.do('validate.base.ValidationIssue', lab, typ, spec, p, c, ver)
    if k == 'raise':
        e.oblige('only an unknown type is refused', z3.Not(good))
        e.cover('bad')
        return
    e.oblige('an unknown type is refused', good)
    e.oblige('type', e.eqt(e.meth(new, 'type')[1], typ))
    e.oblige('status', e.eqt(e.meth(new, 'passed')[1], p))
    e.oblige('label', e.eqt(e.meth(new, 'label')[1], lab))
    e.oblige('explanation', e.eqt(e.meth(new, 'specification')[1], spec))
    e.oblige('version', e.eqt(e.meth(new, 'profile_version')[1], ver))
    k, cs = e.meth(new, 'comments')
    e.same_elems('comments', e.to_list(cs), cl)
    c2 = e.sstr('more')
    k, _ = e.meth(new, 'add_comment', c2)
    e.oblige('add_comment returns', k == 'ret')
    k, cs = e.meth(new, 'comments')
    e.same_elems('add_comment appends', e.to_list(cs), cat(e, cl, e.mk([c2])))
    e.cover('good')


@contract('verdict of a validator', 'C13', setup=measures)
def validator(e):
    """is_valid() is ok() of what validate() gives for the same wanted types; ensure_valid() raises in exactly the other case, carrying the results"""
    given = []

    def validate(e, args, kw):
        """any validator: returns any results for the types asked for"""
        args = [x for x in args if x is not v]
        want = args[0] if args else kw.get('want', 3)
        given.append(want)
        res = results(e, want)
        counts(e, res, want)
        given.append(res)
        return res
    base = e.get('validate.base.Validator')
    cls = PClass('AnyValidator', [base], {'validate': Native(lambda e, a, k: validate(e, a, k), 'validate')}, base.module)
    v = e.newobj(Obj(cls, {'target': e.sstr('t')}))
    want = e.choose(8)
    args = [] if want == 3 and e.choose(2) else [want]
    if e.choose(2) == 0:
        k, r = e.meth(v, 'is_valid', *args)
        e.oblige('is_valid returns', k == 'ret')
        e.oblige('validate() is asked for the wanted types', len(given) == 2 and given[0] == want)
        e.oblige('is_valid: no wanted test failed', bool_term(e.truth(r)) == (tot(e, given[1], want, 'failed') == 0))
    else:
        k, r = e.meth(v, 'ensure_valid', *args)
        e.oblige('validate() is asked for the wanted types', len(given) == 2 and given[0] == want)
        bad = tot(e, given[1], want, 'failed') > 0
        if k == 'raise':
            e.oblige('ensure_valid raises only if a wanted test failed', bad)
            e.oblige('ensure_valid raises MultibagValidationError', e.is_exc(r, 'validate.base.MultibagValidationError'))
            e.oblige('the error carries the results', r.attrs.get('results') is given[1])
        else:
            e.oblige('ensure_valid raises if a wanted test failed', z3.Not(bad))
    e.cover()
