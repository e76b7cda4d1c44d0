"""C06: the manifests of a restored bag.  One arbitrary path and one arbitrary algorithm are followed."""
from vc import *
import strs
from strs import uf

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
PATH = TStr('nonempty', 'path', 'noslash0', 'noendslash')
HAS = dict(src=uf('hassrc*', S, B), dest=uf('hasdest*', S, B))
HASALG = dict(src=uf('srcalg*', S, S, B), dest=uf('destalg*', S, S, B))
HASH = dict(src=uf('srchash*', S, S, S), dest=uf('desthash*', S, S, S))
DEL, EX = uf('deleted*', S, B), uf('there*', S, B)


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def g(e, k):
    return e.log.attrs[k]


def setup(e):
    e.ALG = z3.String('ALG*')
    e.jfree = True
    e.merge = True
    e.lean = ['<=len', '==len(', '+len(', '<=entry', 'SMap']
    ispath = lambda sh: sh.k == 'str' and 'path' in sh.tags
    e.measures = [Measure('kp', ispath, lambda e, v: b2i(str_term(v) == e.K), unit=True),
                  Measure('ak', lambda sh: sh.k == 'str' and 'alg' in sh.tags, lambda e, v: b2i(str_term(v) == e.ALG), unit=True)]
    e.measures[0].witness = lambda e: e.K
    e.measures[1].witness = lambda e: e.ALG
    e.hooks = [cases]
    e.member_hooks = [is_in]
    e.cands = [cands]
    M = e.models
    M['ent*.__contains__'] = lambda e, a, kw: wrap_bool(HAS[a[0].attrs['kind']](str_term(a[1])))
    M['ent*.__getitem__'] = lambda e, a, kw: e.newobj(Obj(Ext('hashes*'), {'kind': a[0].attrs['kind'], 'path': a[1]}))
    M['ent*.get'] = ent_get
    M['iter:ent*'] = M['ent*.keys'] = ent_list
    M['ent*.items'] = lambda e, a, kw: e.map_list(lambda p: (p, M['ent*.__getitem__'](e, [a[0], p], {})), ent_list(e, a, kw))
    M['hashes*.__contains__'] = lambda e, a, kw: wrap_bool(HASALG[a[0].attrs['kind']](str_term(a[0].attrs['path']), str_term(a[1])))
    M['hashes*.__getitem__'] = lambda e, a, kw: hash_of(e, a[0], a[1])
    M['iter:hashes*'] = M['hashes*.keys'] = algs
    M['hashes*.items'] = lambda e, a, kw: e.map_list(lambda x: (x, hash_of(e, a[0], x)), algs(e, a, kw))
    M['collections.OrderedDict'] = M['builtins.dict'] = lambda e, a, kw: e.newobj(Obj(Ext('om*'), {}))
    M['om*.__setitem__'] = om_set
    M['om*.__getitem__'] = om_get
    M['om*.__contains__'] = om_has
    M['om*.setdefault'] = om_default
    M['iter:om*'] = M['om*.keys'] = om_list
    M['om*.items'] = lambda e, a, kw: e.map_list(lambda x: (x, om_get(e, [a[0], x], {})), om_list(e, a, kw))
    M['inner*.__setitem__'] = in_set
    M['inner*.__getitem__'] = in_get
    M['inner*.__contains__'] = in_has
    M['iter:inner*'] = M['inner*.keys'] = in_list
    M['inner*.items'] = lambda e, a, kw: e.map_list(lambda x: (x, in_get(e, [a[0], x], {})), in_list(e, a, kw))
    M['os.path.exists'] = exists
    M['io.open'] = M['builtins.open'] = w_open
    M['out*.__enter__'] = lambda e, a, kw: a[0]
    M['out*.__exit__'] = M['out*.close'] = lambda e, a, kw: None
    M['out*.write'] = w_write
    sm = e.summaries
    sm['access.bagit.open_bag'] = open_dest

    def is_deleted(e, fn, a, kw):
        """'whether a path is deleted'"""
        s = a[2]
        e.oblige('the deleted paths are those given', isinstance(s, PList) and (s.segs == e.skip.segs if e.skip is not None else not s.segs))
        c = a[1].concrete()
        if c is None or len(c) != 1:
            raise Unsupported('_is_deleted of several paths')
        return wrap_bool(DEL(str_term(c[0])) if e.skip is not None else z3.BoolVal(False))
    sm['restore.BagRestorer._is_deleted'] = is_deleted


def open_dest(e, fn, a, kw):
    e.oblige('the destination bag is read', e.eqt(a[0], e.dest))
    return e.newobj(Obj(Ext('bag*'), {'entries': e.newobj(Obj(Ext('ent*'), {'kind': 'dest'}))}))


def cases(e, seg, j, v):
    if seg.shape.k == 'str' and 'path' in seg.shape.tags:
        e.decide(str_term(v) == e.K)
    elif seg.shape.k == 'str' and 'alg' in seg.shape.tags:
        e.decide(str_term(v) == e.ALG)


def is_in(e, seg, x):
    if seg.shape.k == 'str' and 'path' in seg.shape.tags:
        return seg.meas['kp'] > 0 if e.decide(str_term(x) == e.K) else z3.Bool(fresh_name('listed'))
    return None


def ent_list(e, a, kw):
    l = e.slist(PATH, 'entries')
    e.assume(l.segs[0].meas['kp'] == b2i(HAS[a[0].attrs['kind']](e.K)))
    k = a[0].attrs['kind']
    e.add_fact(l.segs[0], lambda j, v: HAS[k](str_term(v)))
    return l


def ent_get(e, a, kw):
    if e.decide(HAS[a[0].attrs['kind']](str_term(a[1]))):
        return e.models['ent*.__getitem__'](e, a, kw)
    return a[2] if len(a) > 2 else None


def hash_of(e, h, alg):
    return SStr([Atom(HASH[h.attrs['kind']](str_term(h.attrs['path']), str_term(alg)), ['nonempty', 'nows', 'no: ', 'no:\n', 'stripped'])])


ALGT = TStr('nonempty', 'alg', 'no:/')


def algs(e, a, kw):
    h = a[0]
    l = e.slist(ALGT, 'algs')
    e.assume(l.segs[0].meas['ak'] == b2i(HASALG[h.attrs['kind']](str_term(h.attrs['path']), e.ALG)))
    return l


# the map being built: algorithm -> path -> checksum, known for ALG and K
def om_set(e, a, kw):
    if not (isinstance(a[2], Obj) and isinstance(a[2].cls, Ext) and a[2].cls.dotted == 'om*'):
        raise Unsupported('a map of another form')
    if e.decide(str_term(a[1]) == e.ALG):
        e.setattr(e.log, 'hasA', True)
        e.setattr(e.log, 'hasK', False)


def om_has(e, a, kw):
    return SBool(bool_term(g(e, 'hasA'))) if e.decide(str_term(a[1]) == e.ALG) else SBool(z3.Bool(fresh_name('hasalg')))


def om_get(e, a, kw):
    isa = e.decide(str_term(a[1]) == e.ALG)
    if isa and not e.decide(bool_term(g(e, 'hasA'))):
        raise e.pyexc('KeyError', 'alg')
    return e.newobj(Obj(Ext('inner*'), {'isA': isa}))


def om_default(e, a, kw):
    isa = e.decide(str_term(a[1]) == e.ALG)
    if isa and not e.decide(bool_term(g(e, 'hasA'))):
        om_set(e, a, kw)
    return e.newobj(Obj(Ext('inner*'), {'isA': isa}))


def om_list(e, a, kw):
    l = e.slist(ALGT, 'keys')
    e.assume(l.segs[0].meas['ak'] == b2i(bool_term(g(e, 'hasA'))))
    return l


def in_set(e, a, kw):
    if a[0].attrs['isA'] and e.decide(str_term(a[1]) == e.K):
        e.setattr(e.log, 'hasK', True)
        e.setattr(e.log, 'val', a[2])


def in_has(e, a, kw):
    return SBool(bool_term(g(e, 'hasK'))) if a[0].attrs['isA'] and e.decide(str_term(a[1]) == e.K) else SBool(z3.Bool(fresh_name('haspath')))


def in_get(e, a, kw):
    if a[0].attrs['isA'] and e.decide(str_term(a[1]) == e.K):
        if not e.decide(bool_term(g(e, 'hasK'))):
            raise e.pyexc('KeyError', 'path')
        return SStr([Atom(str_term(g(e, 'val')), ['nonempty', 'nows', 'no: ', 'no:\n', 'stripped'])])
    return e.sstr('sum', 'nonempty', 'nows', 'no: ', 'no:\n', 'stripped')


def in_list(e, a, kw):
    l = e.slist(PATH, 'keys')
    if a[0].attrs['isA']:
        e.assume(l.segs[0].meas['kp'] == b2i(bool_term(g(e, 'hasK'))))
    return l


def in_dest(e, p):
    ps = list(str_parts(p))
    if len(ps) > 1 and isinstance(ps[0], Atom) and ps[0].t.eq(e.dest.parts[0].t) and isinstance(ps[1], str) and ps[1].startswith('/'):
        return mkstr([x for x in [ps[1][1:]] + ps[2:] if x != ''])
    raise Unsupported('a path elsewhere')


def exists(e, a, kw):
    return wrap_bool(EX(str_term(in_dest(e, a[0]))))


def w_open(e, a, kw):
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if mode not in ('w', 'wt'):
        raise Unsupported('open(%r)' % (mode,))
    e.oblige('a manifest is written as UTF-8', str(kw.get('encoding', '')).lower().replace('_', '-') in ('utf-8', 'utf8'))
    ps = list(str_parts(in_dest(e, a[0])))
    if not (len(ps) == 3 and ps[0] in ('manifest-', 'tagmanifest-') and isinstance(ps[1], Atom) and 'alg' in ps[1].tags and ps[2] == '.txt'):
        raise Unsupported('a file written')
    k = 'P' if ps[0] == 'manifest-' else 'T'
    if not e.decide(ps[1].t == e.ALG):
        k = None
    else:
        e.oblige('a manifest is written once', z3.Not(bool_term(g(e, 'wr' + k))))
        e.setattr(e.log, 'wr' + k, True)
    return e.newobj(Obj(Ext('out*'), {'kind': k}))


def w_write(e, a, kw):
    k, s = a[0].attrs['kind'], a[1]
    ps = list(str_parts(s))
    if not (len(ps) == 4 and ps[1] in (' ', '  ') and isinstance(ps[2], Atom) and 'path' in ps[2].tags and ps[3] == '\n'):
        raise Unsupported('a line of another form')
    if k is not None and e.decide(ps[2].t == e.K):
        e.setattr(e.log, 'n' + k, SInt(int_term(g(e, 'n' + k)) + 1))
        e.setattr(e.log, 'v' + k, mkstr(ps[:1]))


def cands(e, st):
    """what is known of the map and the files at the path and algorithm followed"""
    out = []
    L = dict((k, (e.log.uid, k)) for k in e.log.attrs)
    rb = lambda s, k: bool_term(s.read(L[k]))
    seg = st.seg
    ent = st.entry

    def e0(k):
        x = ent.get(L[k])
        return x[1] if x is not None else None
    if seg is None:
        return out
    src = z3.And(HAS['src'](e.K), HASALG['src'](e.K, e.ALG))
    dst = z3.And(HAS['dest'](e.K), HASALG['dest'](e.K, e.ALG))
    m = 'kp' if 'kp' in seg.meas else 'ak' if 'ak' in seg.meas else None
    if m is None:
        return out

    def t0(k):
        x = e0(k)
        if x is None:
            x = g(e, k)
            x = bool_term(x) if k[0] in 'hw' else int_term(x) if k[0] == 'n' else str_term(x)
        return x
    here = lambda s: s.seg.prefix(m)(s.idx) > 0
    for nm, c in (('src', src), ('srcA', HASALG['src'](e.K, e.ALG)), ('dest', z3.And(dst, z3.Not(e.upd), t0('hasA'))), ('one', z3.BoolVal(True)), ('none', z3.BoolVal(False))):
        out.append(('map %s' % nm, lambda s, c=c: rb(s, 'hasK') == z3.Or(t0('hasK'), z3.And(here(s), c))))
    out.append(('hasA', lambda s: z3.Implies(rb(s, 'hasK'), rb(s, 'hasA'))))
    out.append(('hasA kept', lambda s: z3.Implies(t0('hasA'), rb(s, 'hasA'))))
    out.append(('hasA same', lambda s: rb(s, 'hasA') == t0('hasA')))
    out.append(('val', lambda s: z3.Implies(rb(s, 'hasK'), str_term(s.read(L['val'])) == z3.If(e.upd, HASH['src'](e.K, e.ALG), HASH['dest'](e.K, e.ALG)))))
    for k in 'PT':
        out.append(('n' + k, lambda s, k=k: int_term(s.read(L['n' + k])) == t0('n' + k) + s.seg.prefix(m)(s.idx)))
        out.append(('v' + k, lambda s, k=k: z3.Implies(int_term(s.read(L['n' + k])) > 0, str_term(s.read(L['v' + k])) == str_term(g(e, 'val')))))
        if m == 'ak':
            fits = e.payload == z3.BoolVal(k == 'P')
            out.append(('wr' + k, lambda s, k=k, fits=fits: z3.And(
                z3.Implies(here(s), int_term(s.read(L['n' + k])) == b2i(z3.And(bool_term(g(e, 'hasK')), fits))),
                z3.Implies(int_term(s.read(L['n' + k])) > 0, rb(s, 'wr' + k)),
                z3.Implies(z3.Not(here(s)), z3.And(int_term(s.read(L['n' + k])) == 0, z3.Not(rb(s, 'wr' + k)))))))
    return out


@contract('merging the manifests', 'C06 C07', setup=setup, covers=('skip', 'no skip'), seconds=300)
def merging(e):
    """for any path and algorithm: a manifest that is rewritten lists the file with the checksum of the bag it was copied from (or,
    if it is in no bag but to be fetched, of the last bag that lists it), or else with the one it had; a file copied is listed for
    each algorithm its bag lists it for"""
    e.dest = e.sstr('dest', 'nonempty', 'noendslash')
    e.skip = e.slist(TStr('nonempty', 'skip'), 'skip') if e.choose(2) == 0 else None
    upd = e.slist(PATH, 'updated')
    given = e.measure(upd, 'kp') > 0
    deleted = DEL(e.K) if e.skip is not None else z3.BoolVal(False)
    e.payload = z3.PrefixOf(z3.StringVal('data/'), e.K)
    e.upd = z3.Or(given, z3.And(HAS['src'](e.K), z3.Not(HAS['dest'](e.K)), z3.Not(deleted), z3.Not(EX(e.K))))
    src = e.newobj(Obj(Ext('bag*'), {'entries': e.newobj(Obj(Ext('ent*'), {'kind': 'src'}))}))
    e.log = e.newobj(Obj(Ext('log*'), {'hasA': False, 'hasK': False, 'val': '', 'wrP': False, 'wrT': False, 'nP': 0, 'nT': 0, 'vP': '', 'vT': ''}))
    r = e.obj('restore.BagRestorer', _destdir=e.dest)
    k, v = e.meth(r, '_update_manifests', src, upd, e.skip)
    e.oblige('returns', k == 'ret')
    if k != 'ret':
        return
    e.cover('skip' if e.skip is not None else 'no skip')
    s = z3.And(e.upd, HAS['src'](e.K), HASALG['src'](e.K, e.ALG))
    d = z3.And(z3.Not(e.upd), HAS['dest'](e.K), HASALG['dest'](e.K, e.ALG))
    for k in 'PT':
        fits = e.payload == z3.BoolVal(k == 'P')
        wr, n, val = bool_term(g(e, 'wr' + k)), int_term(g(e, 'n' + k)), str_term(g(e, 'v' + k))
        e.oblige('a file copied or to be fetched is listed with the checksum of its bag', z3.Implies(z3.And(s, fits), z3.And(wr, n == 1, val == HASH['src'](e.K, e.ALG))))
        e.oblige('any other stays listed as it was', z3.Implies(z3.And(d, fits, wr), z3.And(n == 1, val == HASH['dest'](e.K, e.ALG))))
        e.oblige('no other is listed', z3.Implies(z3.Not(z3.And(z3.Or(s, d), fits)), n == 0))


# ---------------------------------------------------------------- deleted paths
BELOW = uf('below*', S, S, B)


def covers(e, v):
    return z3.Or(str_term(v) == e.K, z3.PrefixOf(z3.Concat(str_term(v), z3.StringVal('/')), e.K))


def del_setup(e):
    # of the deleted paths, those that cover the path; of a list of truth values, the true ones
    m = Measure('cov', lambda sh: sh.k == 'str' and 'skip' in sh.tags or sh.k == 'bool', lambda e, v: b2i(bool_term(v) if is_bool(v) else covers(e, v)), unit=True)
    m.truth = True
    e.measures = [m]


@contract('whether a path is deleted', 'C06 C07', setup=del_setup)
def is_deleted(e):
    """a path is deleted if it or a directory it is in is listed"""
    e.skip = e.slist(TStr('nonempty', 'skip'), 'skip')
    r = e.obj('restore.BagRestorer')
    k, v = e.meth(r, '_is_deleted', e.mk([SStr([Atom(e.K, ['path'])])]), e.skip)
    e.oblige('returns', k == 'ret')
    e.cover()
    e.oblige('listed, or below a listed one', bool_term(v) == (e.measure(e.skip, 'cov') > 0))
