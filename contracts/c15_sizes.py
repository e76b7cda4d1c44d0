"""C15: sizes of generated data, and size accounting."""
from vc import *
import fsmodel as fs
import models
import strs
from strs import uf
from models import LN

S, I, B, R = z3.StringSort(), z3.IntSort(), z3.BoolSort(), z3.RealSort()
MAX = 2 ** 53          # sizes beyond this are outside what a float represents exactly


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def absz(t):
    return z3.If(t >= 0, t, -t)


# ---------------------------------------------------------------- dividing a total
def sum_measure(e):
    e.measures = [Measure('sum', lambda sh: sh.k == 'int', lambda e, v: int_term(v), nonneg=False)]
    e.sum_hooks = [lambda e, seg: seg.meas.get('sum')]


def uniform_setup(e):
    sum_measure(e)
    e.measures.append(Measure('high', lambda sh: sh.k == 'int', lambda e, v: b2i(z3.Or(int_term(v) < e.LO, int_term(v) > e.LO + 1)), unit=True))
    e.LO = z3.Int('LO*')

    def cands(e, st):
        """the number delivered so far is y; the remaining number is N-y; the size delivered next is one of two values"""
        out = []
        T, N = e.T, e.N
        lists = [(l, x[1]) for l, x in st.entry.items() if x[0] == 'list' and 'sum' in x[1]]
        ints = [l for l, x in st.entry.items() if x[0] == 'int']
        Q = e.Q
        extra = T - Q * N
        sg = z3.If(extra < 0, z3.IntVal(-1), z3.IntVal(1))
        ae = absz(extra)

        def val(s, l):
            return s.summ(s.read(l))[1]

        def y(s, l):
            return s.summ(s.read(l))[1]
        for l, x in lists:
            late = lambda s, l=l: y(s, l)['sum'] == Q * y(s, l)['n'] + sg * z3.If(y(s, l)['n'] > N - ae, y(s, l)['n'] - (N - ae), z3.IntVal(0))
            early = lambda s, l=l: y(s, l)['sum'] == Q * y(s, l)['n'] + sg * z3.If(y(s, l)['n'] < ae, y(s, l)['n'], ae)
            out.append(('late %s' % (l[1],), late))
            out.append(('early %s' % (l[1],), early))
            out.append(('at most N %s' % (l[1],), lambda s, l=l: y(s, l)['n'] <= N))
            for i in ints:
                nm = '%s/%s' % (l[1], i[1])
                out.append(('remaining ' + nm, lambda s, l=l, i=i: val(s, i) == N - y(s, l)['n']))
                out.append(('next late ' + nm, lambda s, l=l, i=i: val(s, i) == Q + z3.If(N - y(s, l)['n'] < ae, sg, z3.IntVal(0))))
                out.append(('next early ' + nm, lambda s, l=l, i=i: val(s, i) == Q + z3.If(y(s, l)['n'] < ae, sg, z3.IntVal(0))))
        return out
    e.cands = [cands]


@contract('dividing a total evenly', 'C15', setup=uniform_setup)
def uniform(e):
    """for every total T and count N > 0 the iterator delivers N sizes, each LO or LO+1 for one LO >= 0, that add up to T"""
    T, N = e.sint('T'), e.sint('N')
    e.assume(z3.And(T.t >= 0, N.t > 0, T.t < MAX, N.t < MAX))
    e.T, e.N = T.t, N.t
    e.Q = z3.ToInt(z3.ToReal(T.t) / z3.ToReal(N.t) + z3.RealVal('1/2'))
    # Q is T/N rounded: 2|T - QN| <= N;  LO = floor(T/N)
    e.oblige('lemma: rounding', z3.And(2 * (T.t - e.Q * N.t) <= N.t, -2 * (T.t - e.Q * N.t) <= N.t, e.Q >= 0))
    e.assume(e.LO == z3.If(T.t - e.Q * N.t < 0, e.Q - 1, e.Q))
    e.oblige('lemma: rounding up', z3.Implies(T.t - e.Q * N.t < 0, e.Q >= 1))
    how = e.choose(3)
    if how == 0:
        k, it = e.do('testing.mkdata.UniformSizeIterator', T, N)
    elif how == 1:
        k, it = e.do('testing.mkdata.UniformSizeIterator', totalsize=T)
        e.setattr(it, 'target_totalfiles', N)
    else:
        k, it = e.do('testing.mkdata.UniformSizeIterator')
        e.setattr(it, 'target_totalfiles', N)
        e.setattr(it, 'target_totalsize', T)
    e.oblige('an iterator is made', k == 'ret')
    k, r = e.meth(it, 'iterate')
    e.oblige('iterate() returns', k == 'ret')
    l = e.to_list(r)
    e.oblige('as many sizes as files', int_term(e.length(l)) == N.t)
    e.oblige('the sizes add up to the total', e.measure(l, 'sum') == T.t)
    e.oblige('no size differs from another by more than one', e.measure(l, 'high') == 0)
    e.oblige('no size is negative', e.LO >= 0)
    e.cover()


# ---------------------------------------------------------------- a file of a given size
def digits_model(e):
    """formatting of whole numbers: length, with the lemma that i < m has at most floor(ln m)+1 digits (log10 <= ln)"""
    dig = uf('digits', I, I)
    e.logs = []
    log0 = e.models['math.log']

    def log(e, a, kw):
        r = log0(e, a, kw)
        if len(a) == 1 and isinstance(r, SReal):
            t = num_term(a[0])
            t = z3.ToReal(t) if z3.is_int(t) else t
            e.path.logs = getattr(e.path, 'logs', []) + [(t, r.t)]
            e.assume(z3.Implies(z3.And(t >= 1, t <= MAX), r.t < 37))      # ln 2**53 < 36.74
        return r
    e.models['math.log'] = log

    def number(e, spec, width, a):
        i = int_term(a)
        d = dig(i)
        e.assume(d >= 1)
        e.assume(z3.Implies(z3.And(i >= 0, i < 10), d == 1))
        for t, r in getattr(e.path, 'logs', []):
            e.assume(z3.Implies(z3.And(i >= 0, z3.ToReal(i) < t, t >= 1), d <= z3.ToInt(r) + 1))
        t = z3.Const(fresh_name('num'), S)
        w = int_term(width)
        e.assume(z3.Length(t) == z3.If(w > d, w, d))
        return Atom(t, ['nonempty'])
    e.models['fmt:width'] = number


def create_setup(e):
    digits_model(e)

    def cands(e, st):
        out = []
        for l, x in st.entry.items():
            if x[0] == 'int':
                out.append(('100 a round %s' % (l[1],), lambda s, l=l, x=x: s.summ(s.read(l))[1] == x[1] + 100 * s.idx))
        return out
    e.cands = [cands]


@contract('a file of a given size', 'C15', setup=create_setup)
def create(e):
    """create_file leaves a file of exactly the size asked for, reports that size, and touches no other file"""
    fs.new_fs(e)
    n = e.sint('size')
    e.assume(z3.And(n.t >= 0, n.t < MAX))
    p = e.sstr('path', 'nonempty')
    q = z3.String('other')
    e.assume(q != str_term(p))
    has0, sz0, d0 = z3.Select(fs.files(e).has, q), fs.size(e, wrap_str(q)), fs.data(e, wrap_str(q))
    k, r = e.do('testing.mkdata.create_file', p, n)
    e.oblige('it returns', k == 'ret')
    e.oblige('the file is there', fs.has(e, p))
    e.oblige('the file has the size asked for', fs.size(e, p) == n.t)
    e.oblige('the size is reported', int_term(r) == n.t)
    e.oblige('other files are as before', z3.And(z3.Select(fs.files(e).has, q) == has0, z3.Implies(has0, z3.And(
        fs.size(e, wrap_str(q)) == sz0, fs.data(e, wrap_str(q)) == d0))))
    e.cover()


# ---------------------------------------------------------------- an inventory of sizes
def inv_setup(e):
    e.W = z3.Int('W*')
    e.CNT = z3.Function('cnt*', I, I)
    e.measures = [Measure('w', lambda sh: sh.k == 'int', lambda e, v: b2i(int_term(v) == e.W), unit=True)]

    def cands(e, st):
        out = []
        for l, x in st.entry.items():
            if x[0] == 'list' and 'w' in x[1]:
                M = lambda s, l=l: s.summ(s.read(l))[1]['w']
                c = z3.If(e.CNT(e.W) > 0, e.CNT(e.W), z3.IntVal(0))
                if st.seg is not None and 'w' in st.seg.meas:
                    out.append(('rounds', lambda s, M=M, x=x: M(s) == x[1]['w'] + z3.If(s.seg.prefix('w')(s.idx) > 0, c, z3.IntVal(0))))
                for v in e.ints_in_scope(st.fr):
                    out.append(('each %s' % v, lambda s, M=M, x=x, v=v: M(s) == x[1]['w'] + z3.If(int_term(s.fr.locals[v]) == e.W, s.idx, z3.IntVal(0))))
        return out
    e.cands = [cands]


@contract('an inventory of sizes', 'C15', setup=inv_setup)
def inventory(e):
    """for every inventory the iterator delivers each listed size as many times as listed, and no other size"""
    keys = e.slist(TInt, 'keys')
    e.assume(e.measure(keys, 'w') <= 1)          # the keys of a mapping are distinct
    cls = PClass('Inventory', [Builtin('object')], {
        'keys': Native(lambda e, a, k: e.newobj(PList(e.copy_segs(keys)))), '__iter__': Native(lambda e, a, k: e.newobj(PList(e.copy_segs(keys)))),
        '__len__': Native(lambda e, a, k: e.length(keys)),
        'items': Native(lambda e, a, k: e.map_list(lambda v: (v, wrap_int(e.CNT(int_term(v)))), keys)),
        '__getitem__': Native(lambda e, a, k: wrap_int(e.CNT(int_term(a[1]))))}, None)
    inv = e.newobj(Obj(cls))
    k, it = e.do('testing.mkdata.InventorySizeIterator', inv)
    e.oblige('an iterator is made', k == 'ret')
    k, r = e.meth(it, 'iterate')
    e.oblige('iterate() returns', k == 'ret')
    l = e.to_list(r)
    c = z3.If(e.CNT(e.W) > 0, e.CNT(e.W), z3.IntVal(0))
    e.oblige('each size as often as listed', e.measure(l, 'w') == z3.If(e.measure(keys, 'w') > 0, c, z3.IntVal(0)))
    e.cover()


# ---------------------------------------------------------------- filling directories
def sum_iterate(e, f, args, kw):
    """UniformSizeIterator.iterate by its contract 'dividing a total evenly'"""
    o = args[0]
    T, N = e.getattr(o, 'target_totalsize'), e.getattr(o, 'target_totalfiles')
    if T is None or N is None or e.decide(z3.Or(int_term(T) < 0, int_term(N) < 0)):
        raise e.pyexc('RuntimeError', 'targets not set')
    e.oblige('precondition of UniformSizeIterator.iterate: a positive count', int_term(N) > 0)
    arr = z3.Const(fresh_name('sizes'), z3.ArraySort(I, I))
    seg = SymSeg(e, int_term(N), TInt, lambda p, j: z3.Select(arr, j), {'sum': int_term(T)}, ['nonneg'])
    seg.facts = (lambda j, v: int_term(v) >= 0,)
    return e.newobj(Iter(e.newobj(PList([seg]))))


def sum_create_file(e, f, args, kw):
    """create_file by its contract 'a file of a given size'"""
    e.oblige('precondition of create_file: a size', z3.And(int_term(args[1]) >= 0))
    fs.put(e, args[0], int_term(args[1]), z3.Int(fresh_name('data')))
    return args[1]


def sum__create_file(e, f, args, kw):
    """DatasetMaker._create_file by its contract 'a new file of a given size'"""
    o, n = args[0], args[1]
    e.oblige('precondition of _create_file: a size', int_term(n) >= 0)
    out = e.sstr('newfile', 'nonempty')
    p = e.models['os.path.join'](e, [o.attrs['root'], out], {})
    e.assume(z3.Not(fs.has(e, p)))
    fs.put(e, p, int_term(n), z3.Int(fresh_name('data')))
    return out


def maker(e, totfiles):
    return e.obj('testing.mkdata.DatasetMaker', root=e.sstr('root', 'nonempty'), plan=e.newobj(PDict({})), _totfiles=totfiles,
                 _iters=e.newobj(PDict({})))


def mk_setup(e):
    models.opaque_paths(e)
    e.models['random.randrange'] = lambda e, a, kw: e.sint('rnd')

    def cands(e, st):
        out = []
        # one text is the other under the root directory
        names = sorted(l for l in st.H if isinstance(e.reg[l[0]], Frame) and l not in st.poison)
        for l in names:
            for l2 in names:
                if l != l2:
                    def f(s, l=l, l2=l2):
                        a, b = s.read(l), s.read(l2)
                        if a is None:
                            return z3.BoolVal(True)
                        if not is_str(a) or not is_str(b):
                            return z3.BoolVal(False)
                        return str_term(a) == str_term(e.models['os.path.join'](e, [e.ROOT, b], {}))
                    out.append(('%s below root as %s' % (l[1], l2[1]), f))
        return out
    e.cands = [cands]
    e.summaries['testing.mkdata.create_file'] = sum_create_file


@contract('a new file of a given size', 'C15', setup=mk_setup)
def new_file(e):
    """_create_file adds exactly one file, of the size asked for, at a path that was free, and returns that path"""
    fs.new_fs(e)
    o = maker(e, e.sint('tf'))
    e.ROOT = o.attrs['root']
    n = e.sint('n')
    e.assume(n.t >= 0)
    under = '' if e.choose(2) == 0 else e.sstr('under', 'nonempty')
    h0 = fs.files(e).has
    nf, nb = int_term(e.fs.attrs['nfiles']), int_term(e.fs.attrs['nbytes'])
    k, out = e.meth(o, '_create_file', n, under)
    e.oblige('it returns', k == 'ret' and is_str(out))
    p = e.models['os.path.join'](e, [e.ROOT, out], {})
    e.oblige('one file more', int_term(e.fs.attrs['nfiles']) == nf + 1)
    e.oblige('of the size asked for', z3.And(fs.has(e, p), fs.size(e, p) == n.t, int_term(e.fs.attrs['nbytes']) == nb + n.t))
    e.oblige('the path was free', z3.Not(z3.Select(h0, str_term(p))))
    e.cover()


def fill_setup(e):
    models.opaque_paths(e)
    sum_measure(e)
    e.summaries['testing.mkdata.DatasetMaker._create_file'] = sum__create_file
    e.summaries['testing.mkdata.UniformSizeIterator.iterate'] = sum_iterate


@contract('filling a directory with files', 'C15', setup=fill_setup)
def fill(e):
    """_fill_with_files: the totals reported are those of the files created; limits respected"""
    fs.new_fs(e)
    o = maker(e, e.sint('tf'))
    sizes = e.slist(TInt, 'sizes')
    e.add_fact(sizes.segs[0], lambda j, v: int_term(v) >= 0)
    mx, mf = e.sint('maxsize'), e.sint('maxfiles')
    e.assume(z3.And(mx.t >= 0, mf.t >= 0))
    nf, nb = int_term(e.fs.attrs['nfiles']), int_term(e.fs.attrs['nbytes'])
    k, r = e.meth(o, '_fill_with_files', e.sstr('target'), mx, mf, e.newobj(Iter(sizes)))
    e.oblige('it returns', k == 'ret')
    a, b = e.unpack(r, 2)
    e.oblige('bytes reported are those written', int_term(a) == int_term(e.fs.attrs['nbytes']) - nb)
    e.oblige('files reported are those created', int_term(b) == int_term(e.fs.attrs['nfiles']) - nf)
    e.oblige('limits', z3.And(int_term(a) <= mx.t, int_term(b) <= mf.t))
    e.cover()


@contract('a data set of a given size', 'C15', setup=fill_setup)
def dataset(e):
    """mkdataset creates exactly the number of files and bytes asked for"""
    fs.new_fs(e)
    T, N = e.sint('T'), e.sint('N')
    e.assume(z3.And(T.t > 0, N.t > 0))
    d = e.sstr('dest', 'nonempty')
    nf, nb = int_term(e.fs.attrs['nfiles']), int_term(e.fs.attrs['nbytes'])
    k, r = e.do('testing.mkdata.mkdataset', d, T, N)
    if k == 'raise':
        e.oblige('it raises only if the parent directory is missing', e.is_exc(r, 'OSError'))
        return
    e.oblige('bytes', int_term(e.fs.attrs['nbytes']) - nb == T.t)
    e.oblige('files', int_term(e.fs.attrs['nfiles']) - nf == N.t)
    e.cover()


# ---------------------------------------------------------------- the totals of a bag
SZ = uf('sizeof*', S, I)


def oxum_setup(e):
    def tag(e, seg, j, v):
        """the names of one directory know that directory"""
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], PList):
            for s in v[2].segs:
                if isinstance(s, SymSeg):
                    s.root = v[0]
        if getattr(seg, 'root', None) is not None and isinstance(v, SStr) and len(v.parts) == 1:
            e.rootof[v.parts[0].t.get_id()] = (seg.root, v.parts[0].t)
    e.hooks = [tag]
    e.rootof = {}

    def fsize(e, v):
        r = e.rootof.get(str_parts(v)[0].t.get_id()) if isinstance(v, SStr) else None
        if r is None:
            return SZ(str_term(v))
        return SZ(str_term(strs.concat(strs.concat(r[0], '/'), v)))
    tup = lambda sh: sh.k == 'tuple' and len(sh.els) == 3 and sh.els[2].k == 'list'
    e.measures = [Measure('bytes', lambda sh: sh.k == 'str' and 'fname' in sh.tags, fsize, nonneg=True),
                  Measure('dirbytes', tup, lambda e, v: e.measure(v[2], 'bytes'), nonneg=True),
                  Measure('dirfiles', tup, lambda e, v: int_term(e.length(v[2])), nonneg=True)]

    def walk(e, f, args, kw):
        """a bag's walk(): any sequence of (directory, names of directories, names of files)"""
        e.oblige('the payload is walked', len(args) == 2 and isinstance(args[1], str) and args[1].strip('/') == 'data')
        e.walked = e.slist(TTuple(TStr('nonempty', 'noendslash'), TList(TStr('nonempty')), TList(TStr('nonempty', 'fname', 'no:/', 'noendslash'))), 'walk')
        return e.newobj(Iter(e.walked))

    def sizeof(e, f, args, kw):
        t = SZ(str_term(args[1]))
        e.assume(t >= 0)
        return wrap_int(t)
    for q in ('extended._ExtendedReadWritableMixin',):
        e.summaries['access.%s.walk' % q] = walk
        e.summaries['access.%s.sizeof' % q] = sizeof


@contract('the payload totals of a bag', 'C15', setup=oxum_setup)
def oxum(e):
    """calc_oxum is the number and summed size of the files that walking the payload gives; update_oxum records it"""
    b = e.obj('access.extended.ExtendedReadWritableBag', info=e.newobj(PDict({'Payload-Oxum': e.sstr('old')} if e.choose(2) else {})))
    up = e.choose(2)
    k, r = e.meth(b, 'update_oxum' if up else 'calc_oxum')
    e.oblige('it returns', k == 'ret')
    a, n = e.unpack(r, 2)
    e.oblige('number of files', int_term(n) == e.measure(e.walked, 'dirfiles'))
    e.oblige('number of bytes', int_term(a) == e.measure(e.walked, 'dirbytes'))
    if up:
        want = strs.concat(strs.concat(e.to_str(a), '.'), e.to_str(n))
        e.oblige('the totals are recorded', e.eqt(b.attrs['info'].d.get('Payload-Oxum'), want))
    e.cover()
