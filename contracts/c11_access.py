"""C11: path-based access stays within the bag."""
from vc import *
import accmodel as acc
from accmodel import NORM, PJOIN, inside, norm

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()


def setup(e):
    acc.setup(e)


def bag(e):
    acc.start(e)
    e.answers = []
    d = e.sstr('bagdir', 'nonempty')
    return e.obj('access.extended.ExtendedReadWritableBag', _bagdir=d, _bagname=e.sstr('bagname'), _replwhl=e.sbool('hardlink'), path=d), d


def contained(e, root, dest=None):
    for op, mode, p in e.touched:
        if mode == 'r':
            c = z3.Or(str_term(p) == z3.StringVal(''), inside(e, root, p))
            if dest is not None:
                c = z3.Or(c, z3.BoolVal(op.startswith('os.path.')))        # questions about the destination
            e.oblige('nothing outside of the bag is looked at', c)
        else:
            e.oblige('nothing is written outside of the destination', inside(e, dest, p) if dest is not None else False)


def asked(e, d, p):
    return norm(e, PJOIN(str_term(d), str_term(p)))


def testing(e, method):
    hb, d = bag(e)
    p = e.sstr('path')
    if e.decide(str_term(p) == z3.StringVal('')):
        p = ''
    k, r = e.meth(hb, method, p)
    contained(e, d)
    e.oblige('returns', k == 'ret')
    there = inside(e, d, e.models['os.path.join'](e, [d, p], {}))
    if not e.touched:
        e.cover('refused')
        e.oblige('only places outside of the bag are refused', z3.Not(there))
        e.oblige('they do not exist', not e.truthy(r))
        return
    e.cover('asked')
    e.oblige('the place named is looked at', z3.And(*[norm(e, str_term(x)) == norm(e, str_term(e.models['os.path.join'](e, [d, p], {}))) for _, _, x in e.touched]))
    e.oblige('the answer is passed on', bool_term(r) == e.answers[-1][2] if e.answers else False)
    e.oblige('the question is the one asked', e.answers[-1][0] == method)


for _m in ('exists', 'isdir', 'isfile'):
    def _f(e, _m=_m):
        """asked of the place named within the bag; False for a path leading out of it"""
        testing(e, _m)
    _f.__name__ = 'test_' + _m
    contract('testing a path: ' + _m, 'C11', setup=setup, covers=('refused', 'asked'))(_f)


def measuring(e, method):
    hb, d = bag(e)
    p = e.sstr('path', 'nonempty')
    k, r = e.meth(hb, method, p)
    contained(e, d)
    there = inside(e, d, e.models['os.path.join'](e, [d, p], {}))
    if k == 'raise':
        e.cover('refused')
        return
    e.cover('done')
    e.oblige('the place is within the bag', there)
    e.oblige('the place named is used', len(e.touched) > 0 and z3.And(*[norm(e, str_term(x)) == asked(e, d, p) for _, _, x in e.touched]))
    if method == 'sizeof':
        e.oblige('its size', int_term(r) == e.answers[-1][2])


for _m in ('sizeof', 'timesfor', 'open_text_file'):
    def _g(e, _m=_m):
        """done at the place named within the bag, or an error"""
        measuring(e, _m)
    _g.__name__ = 'use_' + _m
    contract('using a path: ' + _m, 'C11', setup=setup, covers=('refused', 'done'))(_g)


@contract('walking below a path', 'C11', setup=setup, covers=('refused', 'done'))
def walk(e):
    """only directories within the bag are walked"""
    hb, d = bag(e)
    p = None if e.choose(2) else e.sstr('start')
    k, r = e.meth(hb, 'walk', p)
    if k == 'ret':
        k, r = e.run(lambda: e.to_list(r))
    contained(e, d)
    e.cover('refused' if k == 'raise' else 'done')


@contract('replicating a path', 'C11 C05', setup=setup, covers=('refused', 'done'))
def replicate(e):
    """reads within the bag, writes within the destination only"""
    hb, d = bag(e)
    dest = e.sstr('dest', 'nonempty')
    p = e.sstr('path', 'nonempty')
    k, r = e.meth(hb, 'replicate', p, dest)
    contained(e, d, dest)
    there = inside(e, d, e.models['os.path.join'](e, [d, p], {}))
    if k == 'raise':
        e.cover('refused')
        e.oblige('nothing is written for a place outside', z3.Or(there, z3.BoolVal(not any(m == 'w' for _, m, _ in e.touched))))
        return
    e.cover('done')
    e.oblige('the place is within the bag', there)
    for op, m, x in e.touched:
        if m == 'r' and op.startswith(('os.link', 'shutil.')):
            e.oblige('the file named is copied', norm(e, str_term(x)) == asked(e, d, p))


# ---------------------------------------------------------------- read-only bags: everything goes through the bag's own file system (fs), which refuses
# back references above its root
def ro_setup(e):
    acc.setup(e)
    F = 'fs*.'

    def ask(what):
        def f(e, a, kw):
            e.asked.append((a[0], what, a[1]))
            if e.choose(2):
                raise PyRaise(e.newobj(Obj(Ext('fs.errors.IllegalBackReference'), {'args': (a[1],)})))
            t = z3.Const(fresh_name(what), B)
            e.answers.append((what, None, t))
            return SBool(t)
        return f
    for w in ('exists', 'isdir', 'isfile'):
        e.models[F + w] = ask(w)

    def getinfo(e, a, kw):
        e.asked.append((a[0], 'getinfo', a[1]))
        if e.choose(2):
            raise PyRaise(e.newobj(Obj(Ext('fs.errors.ResourceNotFound'), {'args': (a[1],)})))
        x = z3.Int(fresh_name('size'))
        e.answers.append(('size', None, x))
        return e.newobj(Obj(Ext('info*'), {'size': SInt(x)}))
    e.models[F + 'getinfo'] = getinfo

    def fopen(e, a, kw):
        e.asked.append((a[0], 'open', a[1]))
        return e.newobj(Obj(Ext('file*'), {'path': a[1]}))
    e.models[F + 'open'] = e.models[F + 'openbin'] = fopen

    def makedirs(e, a, kw):
        e.asked.append((a[0], 'makedirs', a[1]))
    e.models[F + 'makedirs'] = e.models[F + 'makedir'] = makedirs

    def opendir(e, a, kw):
        e.asked.append((a[0], 'opendir', a[1]))
        return e.newobj(Obj(Ext('fs*'), {'root': a[0].attrs['root'], 'sub': a[1]}))
    e.models[F + 'opendir'] = opendir
    e.models['fs.open_fs'] = lambda e, a, kw: e.newobj(Obj(Ext('fs*'), {'root': 'dest', 'sub': a[0]}))

    def copy_file(e, a, kw):
        e.asked.append((a[0], 'open', a[1]))
        e.asked.append((a[2], 'write', a[3]))
    e.models['fs.copy.copy_file'] = copy_file
    e.models['fs.path.join'] = lambda e, a, kw: a[1] if a[0] == '' else SStr([Atom(PJOIN(str_term(a[0]), str_term(a[1])), ['nonempty'])])
    e.models['fs.path.isabs'] = lambda e, a, kw: e.models['os.path.isabs'](e, a, kw)
    e.models['fs.path.dirname'] = lambda e, a, kw: e.models['os.path.dirname'](e, a, kw)


def ro_bag(e):
    acc.start(e)
    e.asked, e.answers = [], []
    f = e.newobj(Obj(Ext('fs*'), {'root': 'bag', 'sub': ''}))
    root = e.obj('access.bagit.Path', fs=f, path='', _pfx='pfx')
    return e.obj('access.extended.ExtendedReadOnlyBag', _root=root, _name=e.sstr('name', 'nonempty'), path=e.sstr('loc', 'nonempty')), f


def ro_contained(e, dest=False):
    for f, op, p in e.asked:
        if op in ('write', 'makedirs'):
            e.oblige('only the destination is written to', f.attrs['root'] == 'dest' and dest)
        elif op in ('open', 'getinfo'):
            e.oblige("only the bag's own files are read", f.attrs['root'] == 'bag')
        else:
            e.oblige('nothing else is looked at', f.attrs['root'] == 'bag' or dest)
    e.oblige('nothing is reached otherwise', not e.touched)


def named(e, q, p):
    """q is p, leading slashes aside"""
    import strs
    return e.eqt(strs.strip(e, q, '/', True, False), strs.strip(e, p, '/', True, False))


for _m in ('exists', 'isdir', 'isfile'):
    def _h(e, _m=_m):
        """asked of the bag's own file system; False for a path leading out of it"""
        hb, f = ro_bag(e)
        p = e.sstr('path', 'nonempty')
        k, r = e.meth(hb, _m, p)
        ro_contained(e)
        e.oblige('returns', k == 'ret')
        if not e.answers:
            e.cover('refused')
            e.oblige('asked first', len(e.asked) > 0)
            e.oblige('they do not exist', not e.truthy(r))
            return
        e.cover('asked')
        e.oblige('the place named is looked at', z3.And(*[named(e, x, p) for _, _, x in e.asked]))
        e.oblige('the answer is passed on', bool_term(r) == e.answers[-1][2])
        e.oblige('the question is the one asked', e.answers[-1][0] == _m)
    _h.__name__ = 'ro_test_' + _m
    contract('testing a path of a read-only bag: ' + _m, 'C11', setup=ro_setup, covers=('refused', 'asked'))(_h)


@contract('measuring a file of a read-only bag', 'C11 C15', setup=ro_setup, covers=('refused', 'done'))
def ro_size(e):
    """its size as the bag's own file system gives it"""
    hb, f = ro_bag(e)
    p = e.sstr('path', 'nonempty')
    k, r = e.meth(hb, 'sizeof', p)
    ro_contained(e)
    if k == 'raise':
        e.cover('refused')
        e.oblige('refused as documented', e.is_exc(r, 'OSError'))
        return
    e.cover('done')
    e.oblige('the place named is used', z3.And(*[named(e, x, p) for _, _, x in e.asked]))
    e.oblige('its size', int_term(r) == e.answers[-1][2])


@contract('opening a file of a read-only bag', 'C11', setup=ro_setup)
def ro_open(e):
    hb, f = ro_bag(e)
    p = e.sstr('path', 'nonempty')
    k, r = e.meth(hb, 'open_text_file', p)
    ro_contained(e)
    e.oblige('returns', k == 'ret')
    e.oblige('the place named is used', named(e, r.attrs['path'], p))
    e.cover()


@contract('replicating a path of a read-only bag', 'C11 C05', setup=ro_setup, covers=('refused', 'done'))
def ro_replicate(e):
    """reads from the bag's file system, writes to that of the destination, under the same path"""
    hb, f = ro_bag(e)
    p, dest = e.sstr('path', 'nonempty'), e.sstr('dest', 'nonempty')
    k, r = e.meth(hb, 'replicate', p, dest)
    ro_contained(e, True)
    if k == 'raise':
        e.cover('refused')
        e.oblige('nothing is written', not any(o in ('write', 'makedirs') for _, o, _ in e.asked))
        return
    e.cover('done')
    for x, o, q in e.asked:
        if o in ('write', 'open'):
            e.oblige('the file named is copied', named(e, q, p))
        if x.attrs['root'] == 'dest':
            e.oblige('to the destination', e.eqt(x.attrs['sub'], dest))


@contract('the file system of a read-only bag', 'C11', setup=ro_setup)
def ro_root(e):
    """is confined to the directory of the bag"""
    acc.start(e)
    e.asked, e.answers = [], []
    f = e.newobj(Obj(Ext('fs*'), {'root': 'bag', 'sub': ''}))
    p = '' if e.choose(2) else e.sstr('dir', 'nonempty')
    q = [None, '', e.sstr('rel', 'nonempty')][e.choose(3)]
    root = e.obj('access.bagit.Path', fs=f, path=p, _pfx='pfx')
    k, r = e.meth(root, 'subfspath', q)
    e.oblige('returns', k == 'ret')
    x = r.attrs['fs']
    e.oblige('paths are relative to its root', r.attrs['path'] == '')
    if p == '' and not q:
        e.oblige('the same file system', x is f)
    else:
        want = q if p == '' else p if not q else SStr([Atom(PJOIN(str_term(p), str_term(q)))])
        e.oblige('that of the directory named', x is not f and e.eqt(x.attrs['sub'], want))
    e.cover()


@contract('what makes a listed path unsafe', 'C11', setup=ro_setup, covers=('unsafe', 'safe'))
def dangerous(e):
    """a path is found safe only if it lies within the bag and depends on nothing else; every such path is"""
    hb, f = ro_bag(e)
    d = hb.attrs['path']
    p = e.sstr('path', 'nonempty')
    xu = z3.Function('expanduser*', S, S)
    xv = z3.Function('expandvars*', S, S)
    e.models['os.path.expanduser'] = lambda e, a, kw: SStr([Atom(xu(str_term(a[0])), ['nonempty'])])
    e.models['os.path.expandvars'] = lambda e, a, kw: SStr([Atom(xv(str_term(a[0])), ['nonempty'])])
    k, r = e.meth(hb, '_path_is_dangerous', p)
    e.oblige('returns', k == 'ret')
    t = str_term(p)
    ok = z3.And(z3.Not(z3.PrefixOf(z3.StringVal('/'), t)), xu(t) == t, xv(t) == t, inside(e, d, e.models['os.path.join'](e, [d, p], {})))
    if e.truthy(r):
        e.cover('unsafe')
        e.oblige('a path within the bag is safe', z3.Not(ok))
    else:
        e.cover('safe')
        e.oblige('a safe path is within the bag', ok)
    e.oblige('nothing is reached', not e.touched and not e.asked)


DANGER = z3.Function('danger*', S, B)


def fetch_setup(e):
    ro_setup(e)
    import textmodel
    e.summaries['access.bagit.ReadOnlyBag._path_is_dangerous'] = lambda e, fn, a, kw: SBool(DANGER(str_term(a[1])))       # see 'what makes ...'

    def opn(e, fn, a, kw):
        e.oblige('the fetch list of the bag is read', isinstance(a[0], Obj) and a[0].attrs['fs'].attrs['root'] == 'bag' and a[0].attrs['path'] == 'fetch.txt')
        return e.newobj(Obj(Ext(textmodel.H), {'path': a[0], 'mode': 'r', 'lines': e.newobj(PList(list(e.lines.segs)))}))
    e.summaries['access.bagit._open_text_file_Path'] = opn
    for k in ('.__enter__', '.__exit__', '.close'):
        e.models[textmodel.H + k] = lambda e, a, kw: a[0]
    e.models[textmodel.H + '.__exit__'] = lambda e, a, kw: None
    e.models['iter:' + textmodel.H] = textmodel.t_iter
    tr = lambda sh: sh.k == 'tuple' and len(sh.els) == 3 and all(x.k == 'str' for x in sh.els)
    e.measures = [Measure('unsafe', tr, lambda e, v: z3.If(DANGER(str_term(v[2])), z3.IntVal(1), z3.IntVal(0)), unit=True)]


@contract('the fetch list of a read-only bag', 'C11', setup=fetch_setup, covers=('refused', 'listed', 'none'))
def fetch(e):
    """is refused as soon as a path in it is unsafe; a path handed out is safe"""
    hb, f = ro_bag(e)
    hb.attrs['encoding'] = 'utf-8'
    e.lines = e.slist(TStr(), 'lines')
    k, r = e.meth(hb, 'fetch_entries')
    if k == 'ret':
        k, r = e.run(lambda: e.to_list(r))
    if k == 'raise':
        e.cover('refused')
        e.oblige('refused as documented', e.is_exc(r, 'ValueError') or e.ext_sub(r.cls, Ext('bagit.BagError')))
        return
    if not r.segs:
        e.cover('none')
        return
    e.cover('listed')
    e.oblige('each path handed out is safe', e.measure(r, 'unsafe') == 0)
    e.oblige('an entry for each line', int_term(e.length(r)) == int_term(e.length(e.lines)))
