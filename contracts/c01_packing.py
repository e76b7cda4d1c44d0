"""C01, C02: the packing strategies conserve the files and keep the limits."""
from vc import *
import strs
from strs import uf

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
SZ = uf('filesize*', S, I)
DIRP = uf('dirpath*', S, S)


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def finfo_shape():
    return TRec({'path': TStr('nonempty', 'slash'), 'size': TInt, 'name': TStr()})


def man_shape(name=False):
    d = {'contents': TList(TStr('fpath')), 'totalsize': TInt}
    if name:
        d['name'] = TStr()
    return TRec(d)


def rel(path):
    return str_term(path if isinstance(path, str) else path) if False else z3.SubString(str_term(path), 1, z3.Length(str_term(path)))


def is_finfo(sh):
    return sh.k == 'rec' and sh.cls is None and 'path' in sh.fields and 'size' in sh.fields


def is_man(sh):
    return sh.k == 'rec' and sh.cls is None and 'contents' in sh.fields and 'totalsize' in sh.fields and sh.fields['contents'].k == 'list'


def is_dirname(sh):
    return sh.k == 'str' and 'dirname' in sh.tags


def is_path(sh):
    return sh.k == 'str' and 'dirname' not in sh.tags


def mcount(e, v, name):
    """a measure of a manifest's contents (an empty list has none)"""
    l = v.d['contents']
    t = e.measure(l, name)
    return z3.IntVal(0) if t is None else t


def last_size(e, l):
    """size of the file added last"""
    n = int_term(e.length(l))
    if not l.segs or not any(True for s in l.segs):
        return z3.IntVal(0)
    t = SZ(e.leaf_at(l, (), n - 1))
    e.assume(t >= 0)
    return t


def wellformed(e, m, strict=True):
    """the limits of C02 for one planned bag"""
    l = m.d['contents']
    n = int_term(e.length(l))
    tot = mcount(e, m, 'sz')
    rec = int_term(m.d['totalsize'])
    one = z3.And(n == 1, tot > e.MAXSZ)
    return z3.And(n > 0, rec == tot, z3.Or(tot <= e.MAXSZ, one), tot - last_size(e, l) <= e.TSZ)


def setup(e):
    e.Q = z3.String('Q*')
    e.REF = z3.String('REF*')
    e.MAXSZ, e.TSZ = z3.Int('maxsize*'), z3.Int('targetsize*')
    q = Measure('q', is_path, lambda e, v: b2i(str_term(v) == e.Q), unit=True)
    q.witness = lambda e: e.Q
    qf = Measure('qf', is_finfo, lambda e, v: b2i(rel(v.d['path']) == e.Q), unit=True)
    qm = Measure('qm', is_man, lambda e, v: mcount(e, v, 'q'), nonneg=True)
    for m in (q, qf, qm):
        m.family = 'Q'
    e.measures = [q, qf,
                  Measure('sz', is_path, lambda e, v: SZ(str_term(v)), nonneg=True),
                  Measure('nz', is_finfo, lambda e, v: b2i(int_term(v.d['size']) > 0), unit=True),
                  qm,
                  Measure('bad', is_man, lambda e, v: b2i(z3.Not(wellformed(e, v))), unit=True)]
    e.measures.append(Measure('rf', is_finfo, lambda e, v: b2i(DIRP(str_term(v.d['path'])) == e.REF), unit=True))
    d = Measure('ref', is_dirname, lambda e, v: b2i(str_term(v) == e.REF), unit=True)
    d.witness = lambda e: e.REF
    e.measures.append(d)

    def access(e, seg, j, v):
        if isinstance(v, PDict) and 'path' in v.d and 'size' in v.d:
            # what a bag says about a file
            e.assume(int_term(v.d['size']) == SZ(rel(v.d['path'])))
            e.assume(int_term(v.d['size']) >= 0)
            if 'order:desc:size' in seg.tags and 'nz' in seg.meas:
                e.assume(z3.Implies(z3.And(j == 0, int_term(v.d['size']) == 0), seg.meas['nz'] == 0))
        if isinstance(v, SStr):
            e.assume(SZ(str_term(v)) >= 0)
        for m in e.measures:
            if m.name in seg.meas and m.nonneg and m.name not in ('qm', 'bad'):
                e.assume(z3.Implies(z3.And(j >= 0, j < seg.n), seg.meas[m.name] >= m.elem(e, v)))
    e.hooks = [access]
    e.member_hooks = [witness_member]
    e.cands = [cands]

    def dirpath(e, f, args, kw):
        """WellPackedSplitter._dirpath: some function of the path (see its own contract)"""
        return SStr([Atom(DIRP(str_term(args[-1])), ['nonempty', 'end:/', 'dirname'])])
    e.summaries['split.NeighborlySplitter._dirpath'] = dirpath


def witness_member(e, seg, x):
    for m in e.measures:
        w = getattr(m, 'witness', None)
        if w is not None and m.name in seg.meas and is_str(x) and e.entails(str_term(x) == w(e)):
            return seg.meas[m.name] > 0
    return None


def first_path(e, l):
    try:
        return e.leaf_at(l, (('f', 'path'),), z3.IntVal(0))
    except Unsupported:
        return None


def cands(e, st):
    """over the variables of the current function, by what they hold"""
    out = []
    loc = st.fr.locals
    mans = sorted(k for k, v in loc.items() if isinstance(v, PDict) and 'contents' in v.d and 'totalsize' in v.d)
    lists = sorted(k for k, v in loc.items() if isinstance(v, PList) and v.segs and is_finfo(e.elem_shape(v.segs)))
    ints = sorted(k for k, v in loc.items() if is_int(v))

    def man(s, k):
        v = s.fr.locals[k]
        if not isinstance(v, PDict):
            raise Unsupported('no manifest')
        return v
    for k in mans:
        tot = lambda s, k=k: int_term(man(s, k).d['totalsize'])
        n = lambda s, k=k: int_term(e.length(man(s, k).d['contents']))
        out.append(('total %s' % k, lambda s, k=k, tot=tot: tot(s) == mcount(e, man(s, k), 'sz')))
        out.append(('below target %s' % k, lambda s, tot=tot: tot(s) <= e.TSZ))
        out.append(('below max %s' % k, lambda s, tot=tot, n=n: z3.Or(tot(s) <= e.MAXSZ, n(s) == 0)))
        out.append(('empty %s' % k, lambda s, n=n, tot=tot: z3.And(n(s) == 0, tot(s) == 0)))
        out.append(('filled %s' % k, lambda s, n=n: n(s) > 0))
        if st.n is not None:
            out.append(('filled after one round %s' % k, lambda s, n=n: z3.Or(n(s) > 0, s.idx == 0)))
        for i in ints:
            iv = lambda s, i=i: int_term(s.fr.locals[i])
            out.append(('first %s %s' % (k, i), lambda s, tot=tot, iv=iv: z3.Implies(tot(s) == 0, iv(s) == 0)))
            out.append(('empty first %s %s' % (k, i), lambda s, n=n, iv=iv: z3.Implies(n(s) == 0, iv(s) == 0)))
        for l in lists:
            t0 = first_path(e, loc[l])
            if t0 is not None:
                out.append(('untouched %s %s' % (k, l), lambda s, l=l, n=n, t0=t0:
                            z3.Implies(n(s) == 0, z3.And(int_term(e.length(s.fr.locals[l])) > 0, first_path(e, s.fr.locals[l]) == t0))))
            nz = lambda s, l=l: (e.measure(s.fr.locals[l], 'nz') if e.measure(s.fr.locals[l], 'nz') is not None else z3.IntVal(0))
            out.append(('biggest first %s %s' % (k, l), lambda s, tot=tot, n=n, nz=nz:
                        z3.Implies(z3.And(tot(s) == 0, n(s) > 0), z3.And(nz(s) == 0, e.MAXSZ >= 0))))
    for l, x in st.entry.items():
        if x[0] == 'list' and x[1].get('segs*') and is_dirname(e.elem_shape(x[1]['segs*'])) and 'ref' in x[1]:
            def stays(s, l=l, x=x):
                v = s.summ(s.read(l))
                return z3.Implies(x[1]['ref'] >= 1, v[1]['ref'] >= 1) if v[0] == 'list' and 'ref' in v[1] else z3.BoolVal(False)
            out.append(('ref stays %d' % len(out), stays))
    return out


def problem(e, cls):
    e.assume(z3.And(e.TSZ >= 0))
    sp = e.obj('split.' + cls, maxsz=SInt(e.MAXSZ), tsz=SInt(e.TSZ), forhead=e.slist(TStr(), 'forhead'))
    fin = e.slist(finfo_shape(), 'finfos', ('order:desc:size',))
    plan = e.obj('split.SplitPlan', progenitor=None, _manifests=e.slist(man_shape(), 'mans'), head_version='1', _deprecates=e.mk([]))
    return sp, fin, plan


def pack(e, cls):
    sp, fin, plan = problem(e, cls)
    nq, nq0 = e.measure(fin, 'qf'), e.measure(plan.attrs['_manifests'], 'qm')
    bad0 = e.measure(plan.attrs['_manifests'], 'bad')
    n0 = int_term(e.length(plan.attrs['_manifests']))
    k, r = e.meth(sp, '_apply_algorithm', fin, plan)
    e.oblige('planning returns', k == 'ret')
    mans = plan.attrs['_manifests']
    e.oblige('every file is assigned as often as it is listed', e.measure(mans, 'qm') == nq0 + nq)
    e.oblige('every new bag keeps the limits', e.measure(mans, 'bad') == bad0)
    e.cover()


@contract('well-packed plan', 'C01 C02', setup=setup, seconds=200)
def wellpacked(e):
    """whatever the files and limits: each file is assigned exactly once, each planned bag keeps the limits and records its size"""
    pack(e, 'WellPackedSplitter')


def setup_n(e):
    setup(e)

    def dirpaths_for(e, f, args, kw):
        """its contract: a list, the directory of the given file first"""
        fin, ref = args[1], args[2]
        e.oblige('the reference file is in the list', z3.And(int_term(ref) >= 0, int_term(ref) < int_term(e.length(fin))))
        l = e.slist(TStr('dirname', 'end:/', 'nonempty'), 'dirs')
        e.assume(l.segs[0].n > 0)
        e.assume(e.at(l, z3.IntVal(0)) == DIRP(e.at(fin, int_term(ref), (('f', 'path'),))))
        return l
    e.summaries['split.NeighborlySplitter._dirpaths_for'] = dirpaths_for


@contract('neighborly plan', 'C01 C02', setup=setup_n, seconds=240)
def neighborly(e):
    """as for the well-packed plan"""
    pack(e, 'NeighborlySplitter')


@contract('directories near a file', 'C01 C02', setup=setup, seconds=120)
def nearby(e):
    """the directories to fill from: never empty, that of the given file first"""
    sp, fin, plan = problem(e, 'NeighborlySplitter')
    ref = e.sint('ref')
    e.assume(z3.And(ref.t >= 0, ref.t < int_term(e.length(fin))))
    v = e.list_get(fin, ref)
    e.assume(e.REF == DIRP(str_term(v.d['path'])))
    k, r = e.meth(sp, '_dirpaths_for', fin, ref)
    e.oblige('returns', k == 'ret')
    e.oblige('never empty', int_term(e.length(r)) > 0)
    e.oblige("the given file's directory is first", e.at(r, z3.IntVal(0)) == e.REF)
    e.cover()
