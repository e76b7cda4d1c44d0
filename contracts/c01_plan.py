"""C01: what a plan reports as missing, completing a plan, naming its bags."""
from vc import *
import strs
from strs import uf
from ct_c01_packing import setup as setup_packing, man_shape, SZ, mcount, b2i

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
CQ = (('f', 'contents'), 'm', 'q')


def setup(e):
    setup_packing(e)
    e.member_hooks = [member]
    e.cands = [cands]
    e.hooks = e.hooks + [cases]
    e.models['progenitor*.nonstandard'] = lambda e, a, kw: e.newobj(Iter(e.newobj(PList(list(e.required.segs)))))
    e.models['progenitor*.sizeof'] = lambda e, a, kw: SInt(SZ(str_term(a[1])))


def cases(e, seg, j, v):
    """the file is Q, or another one"""
    if 'cases' in seg.tags and is_str(v):
        e.decide(str_term(v) == e.Q)


def member(e, seg, x):
    """is x in the list: decided by the count of Q if x is Q, anything otherwise"""
    if is_str(x) and 'q' in seg.meas:
        if e.decide(str_term(x) == e.Q):
            return seg.meas['q'] > 0
    return None


def cands(e, st):
    out = []
    mans = getattr(e, 'mans', None)
    if st.n is not None and mans is not None and len(mans.segs) == 1:
        n = int_term(e.length(mans))
        at = lambda: e.at(mans, e.J, CQ)
        inr = z3.And(e.J >= 0, e.J < n)
        out.append(('none below', lambda s: z3.Implies(z3.And(inr, e.J < s.idx), at() == 0)))
        out.append(('none above', lambda s: z3.Implies(z3.And(inr, e.J > n - 1 - s.idx), at() == 0)))
    return out


def plan(e):
    e.required = e.slist(TStr('nonempty', 'fpath'), 'required', ('cases',))
    e.mans = e.slist(man_shape(True), 'mans')
    prog = e.newobj(Obj(Ext('progenitor*'), {'name': e.sstr('bagname', 'nonempty')}))
    return e.obj('split.SplitPlan', progenitor=prog, _manifests=e.mans, head_version='1', _deprecates=e.mk([]))


@contract('destination of a file', 'C01 C04', setup=setup, covers=('none', 'found'))
def destination(e):
    """the last planned bag that lists the path, None if there is none"""
    p = plan(e)
    k, r = e.meth(p, 'find_destination', SStr([Atom(e.Q)]))
    e.oblige('returns', k == 'ret')
    e.oblige('the plan is unchanged', z3.And(int_term(e.length(p.attrs['_manifests'])) == int_term(e.length(e.mans))))
    tot = e.measure(e.mans, 'qm')
    if r is None:
        e.cover('none')
        e.oblige('none only if no bag lists the path', tot == 0)
    else:
        e.cover('found')
        e.oblige('a planned bag', isinstance(r, PDict) and getattr(r, 'origin', None) is not None and r.origin[0] is e.mans)
        j = r.origin[2]
        n = int_term(e.length(e.mans))
        e.oblige('one that lists the path', z3.And(j >= 0, j < n, e.at(e.mans, j, CQ) > 0))
        e.oblige('the last one', z3.Implies(z3.And(e.J > j, e.J < n), e.at(e.mans, e.J, CQ) == 0))


@contract('what is missing from a plan', 'C01', setup=setup, covers=('planned', 'unplanned'))
def missing(e):
    """exactly the required files and directories that no planned bag lists"""
    p = plan(e)
    there = e.decide(e.measure(e.mans, 'qm') > 0)
    k, r = e.meth(p, 'missing')
    e.oblige('returns', k == 'ret')
    l = e.to_list(r)
    got = e.measure(l, 'q') if l.segs else z3.IntVal(0)
    if there:
        e.cover('planned')
        e.oblige('a planned file is not missing', got == 0)
    else:
        e.cover('unplanned')
        e.oblige('an unplanned file is missing once for each time it is required', got == e.measure(e.required, 'q'))
    e.oblige('the plan is unchanged', e.measure(p.attrs['_manifests'], 'qm') == e.measure(e.mans, 'qm'))


@contract('a plan is complete', 'C01', setup=setup, covers=('yes', 'no'))
def complete(e):
    """is_complete() says True only if nothing is missing"""
    p = plan(e)
    e.decide(e.measure(e.mans, 'qm') > 0)
    k, r = e.meth(p, 'is_complete')
    e.oblige('returns', k == 'ret')
    e.cover('yes' if r is True else 'no')
    if r is True:
        e.oblige('complete only if every required file is planned', z3.Implies(e.measure(e.required, 'q') > 0, e.measure(e.mans, 'qm') > 0))


def setup_complete(e):
    setup(e)

    def miss(e, f, args, kw):
        """contract of missing(), see 'what is missing from a plan'"""
        l = e.slist(TStr('nonempty', 'fpath'), 'missing')
        e.assume(e.measure(l, 'q') == z3.If(e.measure(e.mans, 'qm') > 0, z3.IntVal(0), e.measure(e.required, 'q')))
        e.missing = l
        return e.newobj(Iter(e.newobj(PList(list(l.segs)))))
    e.summaries['split.SplitPlan.missing'] = miss


@contract('completing a plan', 'C01 C02', setup=setup_complete)
def completing(e):
    """afterwards nothing is missing; what was planned stays as it was; the bag added is not empty and records its size"""
    p = plan(e)
    n0, nq0, ms = int_term(e.length(e.mans)), e.measure(e.mans, 'qm'), list(e.mans.segs)
    before = e.newobj(PList(ms))
    k, r = e.meth(p, 'complete_plan')
    e.oblige('returns', k == 'ret')
    l = p.attrs['_manifests']
    nq = e.measure(l, 'qm')
    rq = e.measure(e.required, 'q')
    e.oblige('nothing is missing afterwards', z3.Implies(rq > 0, nq > 0))
    e.oblige('a file planned before is not planned again', z3.Implies(nq0 > 0, nq == nq0))
    e.oblige('an unplanned file is planned as often as it is required', z3.Implies(nq0 == 0, nq == rq))
    n = int_term(e.length(l))
    e.oblige('at most one bag is added', z3.And(n >= n0, n <= n0 + 1))
    for pth in [pp for pp, _ in e.leaves(ms[0].shape)]:
        e.oblige('the bags planned before are unchanged', z3.Implies(z3.And(e.J >= 0, e.J < n0), e.at(l, e.J, pth) == e.at(before, e.J, pth)))
    e.cover()
    if e.decide(n > n0):
        e.cover('added')
        m = l.segs[-1].v
        e.oblige('the bag added is not empty', int_term(e.length(m.d['contents'])) > 0)
        e.oblige('the bag added records its size', int_term(m.d['totalsize']) == mcount(e, m, 'sz'))


# ---------------------------------------------------------------- names
NAME = uf('name*', I, S)


def setup_names(e):
    setup_packing(e)
    e.measures = []
    e.hooks = []

    def nxt(e, a, kw):
        """any naming iterator: hands out name*(0), name*(1), ... and may end at any time"""
        it = a[0]
        i = int_term(it.attrs['pos'])
        if not e.decide(i < e.limit):
            raise e.pyexc('StopIteration')
        e.setattr(it, 'pos', wrap_int(i + 1))
        return SStr([Atom(NAME(i), ['nonempty'])])
    e.models['naming*.__next__'] = nxt
    e.cands = [name_cands]


def name_cands(e, st):
    out = []
    n = int_term(e.length(e.mans))
    pth = (('f', 'name'),)
    at = lambda: e.at(e.mans, e.J, pth)
    inr = z3.And(e.J >= 0, e.J < n)
    out.append(('named below', lambda s: z3.Implies(z3.And(inr, e.J < s.idx), at() == NAME(e.J))))
    out.append(('named above', lambda s: z3.Implies(z3.And(inr, e.J > n - 1 - s.idx), at() == NAME(n - 1 - e.J))))
    return out


def naming(e, reverse):
    p = plan(e)
    n = int_term(e.length(e.mans))
    old = e.newobj(PList(list(e.mans.segs)))
    e.limit = z3.Int('limit*')
    it = e.newobj(Obj(Ext('naming*'), {'pos': 0}))
    k, r = e.meth(p, 'name_output_bags', it, reverse)
    l = p.attrs['_manifests']
    if k == 'raise':
        e.cover('too few')
        e.oblige('fails only if there are fewer names than bags', e.limit < n)
        e.oblige('fails as documented', e.is_exc(r, 'RuntimeError'))
        return
    e.cover('named')
    e.oblige('the number of bags stays', int_term(e.length(l)) == n)
    want = NAME(n - 1 - e.J if reverse else e.J)
    e.oblige('each bag gets its name', z3.Implies(z3.And(e.J >= 0, e.J < n), e.at(l, e.J, (('f', 'name'),)) == want))
    for pth in [pp for pp, _ in e.leaves(old.segs[0].shape) if pp != (('f', 'name'),)]:
        e.oblige('nothing else changes', z3.Implies(z3.And(e.J >= 0, e.J < n), e.at(l, e.J, pth) == e.at(old, e.J, pth)))


@contract('naming the bags', 'C01', setup=setup_names, covers=('named', 'too few'))
def naming_fwd(e):
    """bag i gets name i"""
    naming(e, False)


@contract('naming the bags in reverse', 'C01', setup=setup_names, covers=('named', 'too few'))
def naming_rev(e):
    """the last bag gets the first name"""
    naming(e, True)


# ---------------------------------------------------------------- what a plan reports
def copies(e, st):
    out = []
    n = int_term(e.length(e.mans))
    for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
        sh = st.H[l]
        if x[0] == 'list' and sh.k == 'list' and sh.elem is not None and sh.elem.k == 'rec' and 'contents' in sh.elem.fields:
            for p, _ in e.leaves(sh.elem):
                def same(s, l=l, p=p):
                    v = s.summ(s.read(l))
                    if not v[1]['segs*']:
                        return z3.BoolVal(True)
                    t = e.leaf_at(v[1]['segs*'], p, e.J)
                    w = (e.J == n - 1) if p == (('f', 'ishead'),) else e.at(e.mans, e.J, p)
                    return z3.Implies(z3.And(e.J >= 0, e.J < v[1]['n']), t == w)
                out.append(('copy %d %s' % (len(out), p), same))
    return out


def setup_copies(e):
    setup_names(e)
    e.cands = [copies]


@contract('the manifests a plan reports', 'C01 C02 C04', setup=setup_copies)
def reported(e):
    """manifests() gives a copy of each planned bag, in order; the last one, and no other, is marked as the head bag"""
    p = plan(e)
    n = int_term(e.length(e.mans))
    k, r = e.meth(p, 'manifests')
    e.oblige('returns', k == 'ret')
    l = e.to_list(r)
    e.oblige('as many as planned', int_term(e.length(l)) == n)
    if not l.segs:
        return
    inr = z3.And(e.J >= 0, e.J < n)
    for pth, _ in e.leaves(e.mans.segs[0].shape):
        e.oblige('each reported as planned', z3.Implies(inr, e.at(l, e.J, pth) == e.at(e.mans, e.J, pth)))
    e.oblige('the last one is the head bag', z3.Implies(inr, e.at(l, e.J, (('f', 'ishead'),)) == (e.J == n - 1)))
    for s in l.segs:
        e.oblige('copies, not the plan itself', not any(s is t for t in e.mans.segs))
    e.cover()
