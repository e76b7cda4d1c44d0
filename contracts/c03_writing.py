"""C03, C04: what applying a plan writes.  What the code does to the output directory is recorded as events (files copied,
directories made, lines written), each for a bag and a path in it, and compared, at every bag handed out, with what is planned for it."""
from vc import *
import strs
from strs import uf

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
PATH = TStr('nonempty', 'path', 'noslash0', 'noendslash', 'no:\t')
NAME = TStr('nonempty', 'bagname', 'no:/')
EXISTS, ISDIR, SIZE = uf('exists*', S, B), uf('isdir*', S, B), uf('size*', S, I)
FSIZE = uf('fsize*', S, I)
HAS = dict(payload=uf('haspay*', S, B), tag=uf('hastag*', S, B))
HASALG = dict(payload=uf('payalg*', S, S, B), tag=uf('tagalg*', S, S, B))
HASH = dict(payload=uf('payhash*', S, S, S), tag=uf('taghash*', S, S, S))
GEN = ['multibag/member-bags.tsv', 'multibag/file-lookup.tsv', 'multibag/aggregation-info.txt']
LISTS = {'copies': 'copy', 'dirs': 'dir', 'manifest-': 'line', 'tagmanifest-': 'line', 'bag-info.txt': 'line',
         'multibag/member-bags.tsv': 'line', 'multibag/file-lookup.tsv': 'line', 'multibag/aggregation-info.txt': 'line'}
PLAIN = (GEN[0], GEN[2])    # files of which the lines themselves are recorded
SEPS = {'manifest-': ' ', 'tagmanifest-': ' ', 'bag-info.txt': ': ', 'multibag/file-lookup.tsv': '\t'}


EV = dict((k, Ext('ev*' + k)) for k in set(LISTS.values()))


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def planned(e, t):
    """a file or directory of the source that is to be in the bag if it is listed for it"""
    return z3.And(EXISTS(t), *[t != z3.StringVal(g) for g in GEN])


def payload(t):
    return z3.PrefixOf(z3.StringVal('data/'), t)


def is_path(sh):
    return sh.k == 'str' and 'path' in sh.tags


def is_ev(kind):
    return lambda sh: sh.k == 'rec' and isinstance(sh.cls, Ext) and sh.cls.dotted == 'ev*' + kind


def at_k(e, v):
    return str_term(v) == e.K


def setup(e, track=(), measures=()):
    e.ALG = z3.String('ALG*')
    e.track = set(track)
    e.jfree = True
    e.merge = True
    e.lean = ['<=len', '==len(', '+len(', '<=entry', 'SMap']
    m = {
        'inc': Measure('inc', is_path, lambda e, v: b2i(z3.And(at_k(e, v), planned(e, str_term(v)), z3.Not(ISDIR(str_term(v))))), unit=True),
        'ind': Measure('ind', is_path, lambda e, v: b2i(z3.And(at_k(e, v), planned(e, str_term(v)), ISDIR(str_term(v)))), unit=True),
        'psz': Measure('psz', is_path, lambda e, v: z3.If(z3.And(planned(e, str_term(v)), z3.Not(ISDIR(str_term(v))), payload(str_term(v))),
                                                          SIZE(str_term(v)), z3.IntVal(0))),
        'pct': Measure('pct', is_path, lambda e, v: b2i(z3.And(planned(e, str_term(v)), z3.Not(ISDIR(str_term(v))), payload(str_term(v)))), unit=True),
        'cp': Measure('cp', is_ev('copy'), lambda e, v: b2i(at_k(e, v.attrs['path'])), unit=True),
        'mk': Measure('mk', is_ev('dir'), lambda e, v: b2i(z3.And(at_k(e, v.attrs['path']), ISDIR(e.K))), unit=True),
    }
    for kind, t in (('payload', 'pk'), ('tag', 'tk')):
        f = 'manifest-' if kind == 'payload' else 'tagmanifest-'

        def named(e, v, f=f):
            return z3.And(str_term(v.attrs['file']) == z3.Concat(z3.StringVal(f), e.ALG, z3.StringVal('.txt')), at_k(e, v.attrs['b']))
        m[t] = Measure(t, is_ev('line'), lambda e, v, named=named: b2i(named(e, v)), unit=True)
        m[t + 'h'] = Measure(t + 'h', is_ev('line'), lambda e, v, named=named, kind=kind:
                             b2i(z3.And(named(e, v), str_term(v.attrs['a']) == HASH[kind](e.K, e.ALG))), unit=True)
        m['in' + t] = Measure('in' + t, is_path, lambda e, v, kind=kind: b2i(z3.And(
            at_k(e, v), planned(e, str_term(v)), z3.Not(ISDIR(str_term(v))), payload(str_term(v)) == z3.BoolVal(kind == 'payload'),
            HAS[kind](str_term(v)), HASALG[kind](str_term(v), e.ALG))), unit=True)
    m['ak'] = Measure('ak', lambda sh: is_alg(sh) or is_alg_pair(sh), lambda e, v: b2i(str_term(v[0] if isinstance(v, tuple) else v) == e.ALG), unit=True)
    e.measures = [m[x] for x in measures]
    e.hooks = [cases]
    M = e.models
    M['os.mkdir'] = M['os.makedirs'] = mkdir
    M['os.path.exists'] = M['os.path.isdir'] = M['os.path.isfile'] = ask
    M['os.path.dirname'] = lambda e, a, kw: SStr([Atom(uf('parent*', S, S)(str_term(a[0])), ['nonempty', 'parent', 'noendslash'])])
    M['os.path.basename'] = lambda e, a, kw: a[0] if isinstance(a[0], SStr) and 'no:/' in e.rope_tags(a[0]) else \
        SStr([Atom(uf('base*', S, S)(str_term(a[0])), ['nonempty', 'base', 'no:/'])])
    M['os.stat'] = lambda e, a, kw: e.newobj(Obj(Builtin('object'), {'st_size': SInt(FSIZE(str_term(a[0])))}))
    M['os.path.getsize'] = lambda e, a, kw: SInt(FSIZE(str_term(a[0])))
    M['io.open'] = M['builtins.open'] = M['codecs.open'] = w_open
    M['out*.__enter__'] = lambda e, a, kw: a[0]
    M['out*.__exit__'] = M['out*.close'] = w_close
    M['out*.write'] = w_write
    M['out*.writelines'] = w_writelines
    M['in*.__enter__'] = lambda e, a, kw: a[0]
    M['in*.__exit__'] = M['in*.close'] = lambda e, a, kw: None
    M['iter:in*'] = lambda e, a, kw: a[0].attrs['lines']
    M['prog*.exists'] = lambda e, a, kw: wrap_bool(EXISTS(str_term(a[1])))
    M['prog*.isdir'] = lambda e, a, kw: wrap_bool(z3.And(EXISTS(str_term(a[1])), ISDIR(str_term(a[1]))))
    M['prog*.isfile'] = lambda e, a, kw: wrap_bool(z3.And(EXISTS(str_term(a[1])), z3.Not(ISDIR(str_term(a[1])))))
    M['prog*.sizeof'] = lambda e, a, kw: SInt(SIZE(str_term(a[1])))
    M['prog*.replicate'] = replicate
    M['prog*.manifest_files'] = lambda e, a, kw: e.newobj(Iter(e.slist(TStr('nonempty'), 'mfiles')))
    M['prog*.payload_entries'] = lambda e, a, kw: e.newobj(Obj(Ext('hd*'), {'kind': 'payload'}))
    M['prog*.tagfile_entries'] = lambda e, a, kw: e.newobj(Obj(Ext('hd*'), {'kind': 'tag'}))
    M['prog*.is_head_multibag'] = lambda e, a, kw: e.ishead
    M['get:prog*.member_bag_names'] = member_names
    M['prog*.open_text_file'] = lambda e, a, kw: e.newobj(Obj(Ext('in*'), {'lines': e.infolines}))
    M['prog*.iter_file_lookup'] = iter_lookup
    M['hd*.__contains__'] = lambda e, a, kw: wrap_bool(HAS[a[0].attrs['kind']](str_term(a[1])))
    M['hd*.__getitem__'] = lambda e, a, kw: e.newobj(Obj(Ext('hashes*'), {'kind': a[0].attrs['kind'], 'path': a[1]}))
    M['hd*.get'] = hd_get
    M['hashes*.__getitem__'] = lambda e, a, kw: hash_of(e, a[0], a[1])
    M['iter:hashes*'] = algs
    M['hashes*.keys'] = algs
    M['hashes*.items'] = lambda e, a, kw: e.map_list(lambda x: (x, hash_of(e, a[0], x)), algs(e, a, kw))
    M['info*.items'] = info_items
    M['collections.OrderedDict'] = odict

    def mans(e, fn, args, kw):
        """'the manifests a plan reports'"""
        return e.newobj(Iter(e.newobj(PList(list(e.mans.segs)))))
    e.summaries['split.SplitPlan.manifests'] = mans
    e.summaries['access.multibag.as_headbag'] = lambda e, fn, args, kw: args[0]
    e.summaries['access.multibag.HeadBagReadMixin.iter_file_lookup'] = lambda e, fn, args, kw: M['prog*.iter_file_lookup'](e, args, kw)
    e.yield_hook = lambda v: handed_out(e, v)


def info_items(e, a, kw):
    """the labels of the source, with what is to be counted of them for the bag in hand"""
    if all(isinstance(s, El) for s in e.items.segs):
        return e.newobj(PList(list(e.items.segs)))
    s = e.items.segs[0]
    seg = SymSeg(e, s.n, s.shape, s.sel, None, s.tags)
    for x in seg.axioms():
        e.assume(x)
    e.cur_items = e.newobj(PList([seg]))
    return e.newobj(PList([seg]))


def missing(e):
    return PyRaise(e.call(e.get('access.exceptions.MissingMultibagFileError'), ['tag file'], {}))


def iter_lookup(e, a, kw):
    if e.lookup0 is None:
        raise missing(e)
    return e.newobj(Iter(e.newobj(PList(list(e.lookup0.segs)))))


def member_names(e, a, kw):
    if e.members0 is None:
        raise missing(e)
    return e.newobj(PList(list(e.members0.segs)))


def odict(e, a, kw):
    if a:
        l = e.to_list(a[0])
        m = e.map_of_pairs(l).clone()
        return e.newobj(m)
    m = SMap(z3.K(S, z3.BoolVal(False)), {(): z3.Const(fresh_name('v'), z3.ArraySort(S, S))}, NAME, PATH.tags)
    m.nxt = z3.IntVal(0)
    return e.newobj(m)


def is_alg(sh):
    return sh.k == 'str' and 'alg' in sh.tags


def is_alg_pair(sh):
    return sh.k == 'tuple' and len(sh.els) == 2 and is_alg(sh.els[0])


def cases(e, seg, j, v):
    if is_path(seg.shape) and 'cases' in e.opts:
        e.decide(str_term(v) == e.K)
    elif is_alg(seg.shape):
        e.decide(str_term(v) == e.ALG)
    elif is_alg_pair(seg.shape):
        e.decide(str_term(v[0]) == e.ALG)


def hash_of(e, h, alg):
    return SStr([Atom(HASH[h.attrs['kind']](str_term(h.attrs['path']), str_term(alg)), ['nonempty', 'nows', 'no: ', 'no:\n', 'stripped'])])


def hd_get(e, a, kw):
    if e.decide(HAS[a[0].attrs['kind']](str_term(a[1]))):
        return e.newobj(Obj(Ext('hashes*'), {'kind': a[0].attrs['kind'], 'path': a[1]}))
    return a[2] if len(a) > 2 else None


def algs(e, a, kw):
    h = a[0]
    l = e.slist(TStr('nonempty', 'alg', 'no:/'), 'algs')
    if 'ak' in l.segs[0].meas:
        e.assume(l.segs[0].meas['ak'] == b2i(HASALG[h.attrs['kind']](str_term(h.attrs['path']), e.ALG)))
    return l


def place(e, path):
    """(bag, path in the bag) of a path below the output directory, or None"""
    ps = list(str_parts(path))
    if len(ps) < 2 or not (isinstance(ps[0], Atom) and ps[0].t.eq(e.outdir.parts[0].t)) or not (isinstance(ps[1], str) and ps[1].startswith('/')):
        return None
    ps[1] = ps[1][1:]
    ps = [p for p in ps[1:] if p != '']
    bag = []
    while ps:
        p = ps.pop(0)
        if isinstance(p, str):
            if '/' in p:
                k = p.index('/')
                return mkstr(bag + [p[:k]]), mkstr([p[k + 1:]] + ps)
        elif 'no:/' not in p.tags:
            return None
        bag.append(p)
    return mkstr(bag), ''


def event(e, lst, kind, **attrs):
    if lst not in e.track:
        return
    e.oblige('what is written is in the bag in hand', e.eqt(attrs.pop('bag'), e.cur.d['name']))
    l = e.log.attrs[lst]
    e.list_append(l, e.newobj(Obj(EV[kind], attrs)))


def mkdir(e, a, kw):
    p = place(e, a[0])
    if p is None:
        if 'parent' in e.rope_tags(a[0]) and not isinstance(a[0], str):
            return None
        raise Unsupported('a directory made elsewhere')
    if p[1] not in ('', 'data', 'multibag'):
        event(e, 'dirs', 'dir', bag=p[0], path=p[1])
    return None


def ask(e, a, kw):
    p = place(e, a[0])
    r = z3.Bool(fresh_name('there'))
    if 'dirs' in e.track and p is not None and not isinstance(p[1], str) and 'path' in e.rope_tags(p[1]):
        # found there: as good as made
        if e.decide(r):
            event(e, 'dirs', 'dir', bag=p[0], path=p[1])
            return True
        return False
    e.path.__dict__.setdefault('absent', []).append((str_term(a[0]), r))
    return SBool(r)


def replicate(e, a, kw):
    p = place(e, a[2])
    if p is None or p[1] != '':
        raise Unsupported('a file copied elsewhere')
    event(e, 'copies', 'copy', bag=p[0], path=a[1])
    if not isinstance(a[1], str):
        e.assume(FSIZE(str_term(strs.concat(strs.concat(a[2], '/'), a[1]))) == SIZE(str_term(a[1])))
    return None


def head(rel):
    """the literal beginning of the path of an output file"""
    p = str_parts(rel)[0] if str_parts(rel) else ''
    return p if isinstance(p, str) else None


def w_open(e, a, kw):
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    p = place(e, a[0])
    if not isinstance(mode, str) or mode.strip('t') not in ('w', 'a') or p is None:
        raise Unsupported('open(%r)' % (mode,))
    kind = head(p[1])
    atom = str_parts(p[1])[0] if str_parts(p[1]) else None
    if kind is None and isinstance(atom, Atom) and 'base' in atom.tags:
        kind = 'manifest-*'
    ab = e.path.__dict__.get('absent', [])
    if mode.strip('t') == 'w' and not any(str_term(a[0]).eq(x) and e.entails(z3.Not(r)) for x, r in ab):
        for k in (['manifest-', 'tagmanifest-'] if kind == 'manifest-*' else [kind]):
            if k in e.track:
                e.oblige('a file is written once', int_term(e.length(e.log.attrs[k])) == 0)
    e.path.absent = []
    return e.newobj(Obj(Ext('out*'), {'bag': p[0], 'file': p[1], 'kind': kind, 'part': None}))


def w_close(e, a, kw):
    if a[0].attrs['part'] is not None:
        raise Unsupported('an unfinished line')
    return None


def w_write(e, a, kw):
    h, s = a
    if not is_str(s):
        raise e.pyexc('TypeError', 'not a string')
    if h.attrs['kind'] not in e.track:
        if h.attrs['kind'] not in LISTS:
            raise Unsupported('a line written to %r' % (h.attrs['kind'],))
        return None
    js = joined_lines(s)
    if js is not None and h.attrs['part'] is None:
        e.oblige('what is written is in the bag in hand', e.eqt(h.attrs['bag'], e.cur.d['name']))
        base, fn = js[0].mapped if js[0].mapped is not None else (js[0], lambda x: x)
        l = e.map_list(lambda x: record(e, h, strs.concat(fn(x), js[1])), e.newobj(PList([base])))
        e.list_extend(e.log.attrs[h.attrs['kind']], l)
        return w_write(e, [h, js[2]], {}) if js[2] != '' else None
    t = s if h.attrs['part'] is None else strs.concat(h.attrs['part'], s)
    last = str_parts(t)[-1] if str_parts(t) else ''
    if last == '':
        return None
    if not (last.endswith('\n') if isinstance(last, str) else 'end:\n' in last.tags):
        e.setattr(h, 'part', t)
        return None
    if h.attrs['part'] is not None:
        e.setattr(h, 'part', None)
    commit(e, h, t)


def joined_lines(s):
    """(list of lines, what each lacks, rest) of a text that begins with the lines of a list"""
    ps = list(str_parts(s))
    if not ps or not isinstance(ps[0], Joined):
        return None
    if ps[0].sep == '':
        return ps[0].seg, '', mkstr(ps[1:])
    if len(ps) == 2 and ps[0].sep == '\n' == ps[1]:
        return ps[0].seg, '\n', ''
    return None


def w_writelines(e, a, kw):
    if a[0].attrs['part'] is not None:
        raise Unsupported('an unfinished line')
    if a[0].attrs['kind'] not in e.track:
        return w_write(e, [a[0], ''], kw)
    e.oblige('what is written is in the bag in hand', e.eqt(a[0].attrs['bag'], e.cur.d['name']))
    e.list_extend(e.log.attrs[a[0].attrs['kind']], e.map_list(lambda x: record(e, a[0], x), e.to_list(a[1])))


def commit(e, h, t):
    e.oblige('what is written is in the bag in hand', e.eqt(h.attrs['bag'], e.cur.d['name']))
    e.list_append(e.log.attrs[h.attrs['kind']], record(e, h, t))


def record(e, h, t):
    """what is recorded of a line written"""
    if h.attrs['kind'] == GEN[2]:
        return t
    sep = SEPS.get(h.attrs['kind'])
    ps = list(str_parts(t))
    if isinstance(ps[-1], str):
        inner = [p for p in ps[:-1] if isinstance(p, str)] + [ps[-1][:-1]]
        if ps[-1][-1:] != '\n' or h.attrs['kind'] != 'bag-info.txt' and any('\n' in p for p in inner):
            raise Unsupported('lines written together')
        ps[-1] = ps[-1][:-1]
        ps = [p for p in ps if p != '']
    elif 'end:\n' not in ps[-1].tags:
        raise Unsupported('an unfinished line')
    fa, fb = mkstr(ps), ''
    if sep is not None:
        pre = []
        while ps:
            p = ps.pop(0)
            if isinstance(p, str):
                if sep in p:
                    k = p.index(sep)
                    fa, fb = mkstr(pre + [p[:k]]), mkstr([p[k + len(sep):]] + ps)
                    break
            elif 'no:' + sep not in p.tags and 'nows' not in p.tags:
                raise Unsupported('fields of a line')
            pre.append(p)
    if h.attrs['kind'] in PLAIN:
        return fa
    return e.newobj(Obj(EV['line'], {'file': h.attrs['file'], 'a': fa, 'b': fb}))


def plan(e, head=None, naming=False):
    contents = TList(PATH)
    sh = TRec({'name': NAME, 'contents': contents, 'ishead': TBool})
    e.mans = e.slist(sh, 'mans')
    n = int_term(e.length(e.mans))
    e.assume(n > 0)
    e.add_fact(e.mans.segs[0], lambda j, v: bool_term(v.d['ishead']) == (j == n - 1))
    e.outdir = e.sstr('outdir', 'nonempty', 'noendslash')
    e.log = e.newobj(Obj(Ext('log*'), dict((k, e.newobj(PList())) for k in sorted(LISTS))))
    e.ishead = False if head is None else head
    e.infolines = e.slist(TStr('nonempty', 'end:\n'), 'ilines')
    if 'bag-info.txt' in e.track:
        e.items = e.slist(TTuple(TStr('nonempty', 'label', 'no:: '), TOpt(TStr(), TList(TStr()))), 'items')
    else:
        # a label of each kind: what is written for them is shown by 'the bag-info of ...'
        v = lambda: e.sstr('value')
        e.items = e.mk([(x, v()) for x in ('Internal-Sender-Identifier', 'Internal-Sender-Description', 'Bag-Size', 'Payload-Oxum', 'Multibag-Reference')] +
                       [('External-Identifier', e.mk([v(), v()])), ('Contact-Name', e.mk([v()]))])
    prog = e.newobj(Obj(Ext('prog*'), {'name': e.sstr('bagname', 'nonempty'), 'path': e.sstr('srcpath', 'nonempty', 'noendslash'), 'replicate_with_hardlink': False,
                                       'info': e.newobj(Obj(Ext('info*'), {}))}))
    return e.obj('split.SplitPlan', progenitor=prog, _manifests=e.mans, head_version=e.sstr('hv', 'nonempty'), _deprecates=e.mk([]))


def handed_out(e, v):
    """at a yield: the checks of the contract, and a new record"""
    p = place(e, v)
    if p is None or p[1] != '':
        raise Unsupported('what is handed out')
    e.check_bag(e, p[0])
    for k in sorted(e.track):
        l = e.log.attrs[k]
        e.wr(l)
        l.segs = []


def current(e):
    """the manifest being written: the one accessed last"""
    return e.cur


def count(e, k, m):
    l = e.log.attrs[k]
    t = e.measure(l, m) if l.segs else None
    return z3.IntVal(0) if t is None else t


def common(e, track, measures, check, opts=('cases',)):
    setup(e, track, measures)
    e.opts = set(opts)

    def cur(e, seg, j, v):
        if seg.shape.k == 'rec' and 'contents' in seg.shape.fields:
            e.cur = v
    e.hooks = [cur] + e.hooks

    def at_yield(e, bag):
        m = e.cur
        e.oblige('the bag handed out is the one planned', e.eqt(bag, m.d['name']))
        e.cover()
        check(e, m, m.d['contents'])
    e.check_bag = at_yield
    e.member_hooks = [distinct]


def distinct(e, seg, x):
    """a second bag of a name: making its directory fails, so nothing is shown of it"""
    return z3.BoolVal(False) if seg.shape.k == 'str' and 'bagname' in seg.shape.tags else None


def files_setup(e):
    def check(e, m, c):
        e.oblige('each file planned is copied, and no other', count(e, 'copies', 'cp') == e.measure(c, 'inc') + b2i(e.K == z3.StringVal('bagit.txt')))
        e.oblige('each directory planned is made, and no other', z3.Implies(ISDIR(e.K), count(e, 'dirs', 'mk') == e.measure(c, 'ind')))
    common(e, ['copies', 'dirs'], ['inc', 'ind', 'cp', 'mk'], check)


@contract('the files of the bags written', 'C03', setup=files_setup, seconds=600)
def files(e):
    """each bag gets the files and empty directories listed for it that the source has, and bagit.txt, and nothing else"""
    p = plan(e)
    k, r = e.meth(p, 'apply_iter', e.outdir)


def sums_setup(kind):
    t, f = ('pk', 'manifest-') if kind == 'payload' else ('tk', 'tagmanifest-')

    def check(e, m, c):
        n = e.measure(c, 'in' + t)
        e.oblige('each checksum of a file included is recorded, and no other', count(e, f, t) == n)
        e.oblige('it is the one the source has', count(e, f, t + 'h') == n)
    return lambda e: common(e, [f], ['in' + t, t, t + 'h', 'ak'], check)


@contract('the payload checksums written', 'C03', setup=sums_setup('payload'), seconds=600)
def payload_sums(e):
    """each payload manifest lists the payload files included that the source has a checksum for, once each time they are listed
    for the bag, with that checksum, and no other"""
    p = plan(e)
    k, r = e.meth(p, 'apply_iter', e.outdir)


@contract('the tag file checksums written', 'C03', setup=sums_setup('tag'), seconds=600)
def tag_sums(e):
    """the same for the tag manifests and the other files"""
    p = plan(e)
    k, r = e.meth(p, 'apply_iter', e.outdir)


# ---------------------------------------------------------------- the members listed
SOURCES = ('of a plain bag', 'of a head bag without the tag files', 'of a head bag')


def members_setup(e):
    def check(e, m, c):
        l = e.log.attrs[GEN[0]]
        G = e.log.attrs['count']
        g = z3.If(str_term(m.d['name']) == e.MEM, z3.IntVal(1), int_term(G))
        if e.decide(bool_term(m.d['ishead'])):
            e.cover('head')
            e.oblige('each member is listed once, and no other', count(e, GEN[0], 'nm') == g)
            if l.segs:
                e.oblige('the head bag is listed last', z3.Implies(e.J == int_term(e.length(l)) - 1, e.at(l, e.J) == str_term(m.d['name'])))
        else:
            e.cover('other')
            e.oblige('only the head bag lists members', int_term(e.length(l)) == 0)
        e.setattr(e.log, 'count', SInt(g))
    common(e, [GEN[0]], [], check, opts=())
    e.MEM = z3.String('MEM*')
    e.measures = [Measure('nm', lambda sh: sh.k == 'str' and 'bagname' in sh.tags, lambda e, v: b2i(str_term(v) == e.MEM), unit=True)]
    e.member_hooks = [member]
    e.cands = [member_cands]


def member(e, seg, x):
    """is x in the list: decided by the count of MEM if x is MEM, anything otherwise"""
    if is_str(x) and 'nm' in seg.meas:
        if e.decide(str_term(x) == e.MEM):
            return seg.meas['nm'] > 0
    return None


def member_cands(e, st):
    out = []
    g = (e.log.uid, 'count')
    for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
        if x[0] == 'list' and 'nm' in x[1]:
            def same(s, l=l):
                v = s.summ(s.read(l))
                return z3.And(v[1]['nm'] == int_term(s.read(g)), v[1]['nm'] <= 1) if 'nm' in v[1] else z3.BoolVal(False)
            out.append(('listed %d' % len(out), same))
    return out


def members(e, k):
    p = plan(e, head=k > 0)
    n0 = z3.IntVal(0)
    e.members0 = None
    if k == 2:
        e.members0 = e.slist(NAME, 'members')
        n0 = e.measure(e.members0, 'nm')
        e.assume(n0 <= 1)
    e.log.attrs['count'] = SInt(n0)
    e.lookup0 = None
    e.meth(p, 'apply_iter', e.outdir)


for _k, _n in enumerate(SOURCES):
    def f(e, k=_k):
        """the head bag lists each bag written, and each member the source lists if it is a head bag itself, once, itself last; no
        other bag lists members"""
        members(e, k)
    contract('the members the head bag lists (%s)' % _n, 'C04', setup=members_setup, seconds=600, covers=('head', 'other'))(f)


# ---------------------------------------------------------------- the file lookup
def lookup_setup(e):
    def check(e, m, c):
        here = e.measure(c, 'inc') > 0
        has = z3.Or(bool_term(e.log.attrs['has']), here)
        val = z3.If(here, str_term(m.d['name']), str_term(e.log.attrs['val']))
        if e.decide(bool_term(m.d['ishead'])):
            e.cover('head')
            e.oblige('each file is listed once, and no other', count(e, GEN[1], 'lk') == b2i(has))
            e.oblige('with the last bag it is in', count(e, GEN[1], 'lv') == b2i(z3.And(has, val == e.VAL)))
        else:
            e.cover('other')
            e.oblige('only the head bag has a file lookup', int_term(e.length(e.log.attrs[GEN[1]])) == 0)
        e.setattr(e.log, 'has', SBool(has))
        e.setattr(e.log, 'val', SStr([Atom(val, ['nonempty', 'bagname', 'no:/'])]))
    common(e, [GEN[1]], ['inc'], check, opts=('cases',))
    e.VAL = z3.String('VAL*')
    pair = lambda sh: sh.k == 'tuple' and len(sh.els) == 2 and sh.els[0].k == 'str' and 'path' in sh.els[0].tags and sh.els[1].k == 'str'
    inc = e.measures[0]
    k = Measure('k', is_path, lambda e, v: b2i(at_k(e, v)), unit=True)
    kt = Measure('kt', pair, lambda e, v: b2i(at_k(e, v[0])), unit=True)
    kv = Measure('kv', pair, lambda e, v: b2i(z3.And(at_k(e, v[0]), str_term(v[1]) == e.VAL)), unit=True)
    for m in (k, kt, kv):
        m.witness = lambda e: e.K
    inc.key = kt.key = True
    line = lambda e, v: at_k(e, v.attrs['a'])
    e.measures = [inc, k, kt, kv, Measure('lk', is_ev('line'), lambda e, v: b2i(line(e, v)), unit=True),
                  Measure('lv', is_ev('line'), lambda e, v: b2i(z3.And(line(e, v), str_term(v.attrs['b']) == e.VAL)), unit=True)]
    e.lean.remove('SMap')
    e.cands = [lookup_cands]


def lookup_cands(e, st):
    out = []
    gh, gv = (e.log.uid, 'has'), (e.log.uid, 'val')
    for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
        if x[0] == 'map' and () in x[2]:
            def same(s, l=l):
                v = s.summ(s.read(l))
                has, val = bool_term(s.read(gh)), str_term(s.read(gv))
                return z3.And(z3.Select(v[1], e.K) == has, z3.Implies(has, z3.Select(v[2][()], e.K) == val))
            out.append(('as due %d' % len(out), same))
            if st.seg is not None and 'inc' in st.seg.meas:
                def last(s, l=l):
                    v = s.summ(s.read(l))
                    return z3.Implies(s.seg.prefix('inc')(s.idx) > 0, z3.Select(v[2][()], e.K) == str_term(e.cur.d['name']))
                out.append(('here %d' % len(out), last))
        if x[0] == 'list' and 'lv' in x[1] and st.seg is not None and 'k' in st.seg.meas:
            for n, m in sorted(st.fr.locals.items()):
                if isinstance(m, SMap) and () in m.val:
                    t = z3.Select(m.val[()], e.K) == e.VAL

                    def wrote(s, l=l, t=t, x=x):
                        v = s.summ(s.read(l))
                        return v[1]['lv'] == x[1]['lv'] + z3.If(t, s.seg.prefix('k')(s.idx), z3.IntVal(0)) if 'lv' in v[1] else z3.BoolVal(False)
                    out.append(('written %d' % len(out), wrote))
    return out


def lookup(e, k):
    p = plan(e, head=k > 0)
    e.members0 = e.mk([])
    e.lookup0 = None
    e.log.attrs['has'], e.log.attrs['val'] = False, e.sstr('val', 'nonempty', 'bagname', 'no:/')
    if k == 2:
        e.lookup0 = e.slist(TTuple(PATH, NAME), 'lookup')
        m = e.map_of_pairs(e.newobj(PList(list(e.lookup0.segs))))
        e.log.attrs['has'] = SBool(z3.Select(m.has, e.K))
        e.log.attrs['val'] = SStr([Atom(z3.Select(m.val[()], e.K), ['nonempty', 'bagname', 'no:/'])])
    e.meth(p, 'apply_iter', e.outdir)


for _k, _n in enumerate(SOURCES):
    def f(e, k=_k):
        """the head bag's file lookup lists each file written to a bag, with the last bag it is in, and each file the source's file
        lookup lists if it is a head bag itself, once; no other bag has one"""
        lookup(e, k)
    contract('the file lookup of the head bag (%s)' % _n, 'C04', setup=lookup_setup, seconds=600, covers=('head', 'other'))(f)


# ---------------------------------------------------------------- the aggregation's metadata, the order of the bags
def agg_setup(e):
    def check(e, m, c):
        l = e.log.attrs[GEN[2]]
        n = int_term(e.length(l))
        f = z3.StringVal('bag-info.txt')
        if e.decide(bool_term(m.d['ishead'])):
            e.cover('head')
            src = z3.And(EXISTS(f), z3.Not(ISDIR(f)))
            e.oblige('as many lines as the source has', n == z3.If(src, int_term(e.length(e.infolines)), z3.IntVal(0)))
            if l.segs:
                e.oblige('the lines of the source', z3.Implies(z3.And(e.J >= 0, e.J < n), e.at(l, e.J) == e.at(e.infolines, e.J)))
        else:
            e.cover('other')
            e.oblige('only the head bag has it', n == 0)
    common(e, [GEN[2]], [], check, opts=())


@contract("the source's bag-info in the head bag", 'C04', setup=agg_setup, seconds=600, covers=('head', 'other'))
def agg(e):
    """the head bag's aggregation-info.txt has the lines of the source's bag-info.txt, if there is one; no other bag has it"""
    p = plan(e)
    e.meth(p, 'apply_iter', e.outdir)


def order_setup(e):
    common(e, [], [], lambda e, m, c: None, opts=())
    e.cands = [order_cands]
    e.check_bag = lambda e, bag: None
    e.models['naming*.__next__'] = e.models['naming*.next'] = naming_next


GIVEN = uf('given*', I, S)


def naming_next(e, a, kw):
    pos = int_term(e.log.attrs['pos'])
    if not e.decide(pos < e.limit):
        raise e.pyexc('StopIteration')
    e.setattr(e.log, 'pos', SInt(pos + 1))
    return SStr([Atom(GIVEN(pos), ['nonempty', 'bagname', 'no:/'])])


def out_name(e, j):
    name = e.at(e.mans, j, (('f', 'name'),))
    if e.naming is not None:
        name = z3.If(j < e.limit, GIVEN(j), name)
    return z3.Concat(str_term(e.outdir), z3.StringVal('/'), name)


def order_cands(e, st):
    out = []
    n = int_term(e.length(e.mans))
    for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
        sh = st.H[l]
        if x[0] == 'list' and sh.k == 'list' and sh.elem is not None and sh.elem.k == 'str' and st.n is not None:
            def named(s, l=l):
                v = s.summ(s.read(l))
                if not v[1]['segs*']:
                    return z3.BoolVal(True)
                return z3.Implies(z3.And(e.J >= 0, e.J < v[1]['n'], e.J < n), e.leaf_at(v[1]['segs*'], (), e.J) == out_name(e, e.J))
            out.append(('named %d' % len(out), named))
    for l, sh in sorted(st.H.items(), key=lambda i: str(i[0])):
        if sh is not None and sh.k == 'opt' and any(a.k == 'rec' and isinstance(a.cls, Ext) and a.cls.dotted == 'naming*' for a in sh.alts):
            def used(s, l=l):
                pos = int_term(s.read((e.log.uid, 'pos')))
                return z3.And(pos >= e.limit, e.limit < s.idx) if s.read(l) is None else pos == s.idx
            out.append(('names used %d' % len(out), used))
    return out


def ordered(e, naming):
    p = plan(e)
    e.limit = z3.Int('limit*')
    e.log.attrs['pos'] = 0
    e.naming = e.newobj(Obj(Ext('naming*'), {})) if naming else None
    k, r = e.meth(p, 'apply_iter', e.outdir, e.naming)
    if k != 'ret':
        e.oblige('fails as documented', e.is_exc(r, 'RuntimeError'))
        return
    e.cover()
    l = e.to_list(r)
    n = int_term(e.length(e.mans))
    e.oblige('a bag for each planned', int_term(e.length(l)) == n)
    if l.segs:
        e.oblige('named as planned, in order', z3.Implies(z3.And(e.J >= 0, e.J < n), e.at(l, e.J) == out_name(e, e.J)))


@contract('the bags handed out', 'C03 C04', setup=order_setup, seconds=600)
def order(e):
    """a bag is handed out for each one planned, in order, by its planned name"""
    ordered(e, False)


@contract('the bags handed out under given names', 'C03 C04', setup=order_setup, seconds=600)
def order_named(e):
    """the same with a naming iterator: by the name it gives while it has any, by the planned name afterwards"""
    ordered(e, True)


# ---------------------------------------------------------------- bag-info.txt
NOPASS = uf('nopass*', S, B)
ISI, ISD, EXT, SIZ, OXU, GRP = ('Internal-Sender-Identifier', 'Internal-Sender-Description', 'External-Identifier', 'Bag-Size', 'Payload-Oxum',
                                'Bag-Group-Identifier')
FIXED = ('Multibag-Version', 'Multibag-Tag-Directory', 'Multibag-Head-Version')
SRC = 'Multibag-Source-'


SPECIAL = (ISI, ISD, EXT, SIZ, OXU)
OTHER = ['nonempty', 'label', 'no:: ', 'nopre:Multibag-'] + ['ne:' + x for x in SPECIAL]
LABELS = {'multibag labels': FIXED, 'special labels': (ISI, ISD, EXT, GRP), 'labels of the source': tuple(SRC + x for x in (ISI, ISD, EXT, SIZ)),
          'other labels': (None,)}


def lit(x):
    return z3.StringVal(x)


def label_is(e, n, label):
    """the label (None: LBL, any other) is n (a literal, or a label of the source without special meaning)"""
    if isinstance(n, str):
        return z3.BoolVal(label == n)
    if label is not None and (label.startswith('Multibag-') or label in SPECIAL):
        return z3.BoolVal(False)
    return (e.LBL if label is None else lit(label)) == str_term(n)


def info_lines(e, v, label):
    """the number of lines 'label: VAL' that the bag in hand gets for a label of the source and its values"""
    n, vals = v
    V, Z = e.VAL, z3.IntVal(0)
    if isinstance(vals, PList):
        first = e.at(vals, Z) if vals.segs else lit('')
        c = e.measure(vals, 'vv')
        c = Z if c is None else c
    else:
        first = str_term(vals)
        c = b2i(first == V)
    if isinstance(n, str):
        if n == OXU:
            return Z
        t = z3.If(label_is(e, SRC + n, label), c, Z)
        if n == ISI:
            t = t + b2i(z3.And(label_is(e, n, label), V == str_term(e.cur.d['name'])))
        elif n == ISD:
            t = t + b2i(z3.And(label_is(e, n, label), V == lit(e.desc)))
        elif n == EXT:
            t = t + b2i(z3.And(label_is(e, n, label), V == z3.Concat(first, lit('/mbag:'), str_term(e.cur.d['name'])))) + z3.If(label_is(e, GRP, label), c, Z)
    elif 'pre:Multibag-' in e.rope_tags(n):
        return Z
    else:
        t = z3.If(label_is(e, n, label), c, Z)
    return z3.simplify(z3.If(NOPASS(str_term(n)), Z, t))


def line_label(e, a, label):
    if isinstance(a, str) or len(a.parts) == 1 and set(OTHER) <= set(e.rope_tags(a)):
        return label_is(e, a, label)
    return (e.LBL if label is None else lit(label)) == str_term(a)


def info_setup(labels):
    def setup(e):
        e.LBL, e.VAL = z3.String('LBL*'), z3.String('VAL*')

        def check(e, m, c):
            for i, x in enumerate(labels):
                have = count(e, 'bag-info.txt', 'bl%d' % i)
                t = e.measure(e.cur_items, 'bi%d' % i)
                if x == FIXED[0]:
                    t = t + b2i(e.VAL == lit(e.version))
                elif x == FIXED[1]:
                    t = t + b2i(e.VAL == lit('multibag'))
                elif x == FIXED[2]:
                    t = t + b2i(z3.And(e.VAL == str_term(e.hv), bool_term(m.d['ishead'])))
                e.oblige('the lines due for %s, and no other' % (x or 'any other label'), have == t)
        common(e, ['bag-info.txt'], [], check, opts=())
        item = lambda sh: sh.k == 'tuple' and len(sh.els) == 2 and sh.els[0].k == 'opt' and any(a.k == 'const' for a in sh.els[0].alts)
        e.measures = [Measure('vv', lambda sh: sh.k == 'str' and 'value' in sh.tags, lambda e, v: b2i(str_term(v) == e.VAL), unit=True)]
        for i, x in enumerate(labels):
            e.measures.append(Measure('bi%d' % i, item, lambda e, v, x=x: info_lines(e, v, x)))
            e.measures.append(Measure('bl%d' % i, is_ev('line'), lambda e, v, x=x: b2i(z3.And(
                line_label(e, v.attrs['a'], x), str_term(v.attrs['b']) == e.VAL)), unit=True))
            e.lean += ['M:bl%d==entry+P:bi%d' % (i, j) for j in range(len(labels)) if j != i]

        def which(e, seg, j, v):
            if item(seg.shape) and not isinstance(v[0], str) and 'pre:Multibag-' not in e.rope_tags(v[0]):
                for x in labels:
                    c = label_is(e, v[0], x)
                    if not z3.is_false(c):
                        e.decide(c)
        e.hooks.append(which)
        e.member_hooks += [lambda e, seg, x: NOPASS(str_term(x)) if 'nopass' in seg.tags else None]
        split = e.mod('split').globals
        e.desc, e.version = split['MBAG_INTERNAL_SENDER_DESC'], split['MBAG_VERSION']
    return setup


def info(e):
    p = plan(e)
    e.assume(z3.And(*[e.LBL != lit(x) for x in sum(LABELS.values(), ()) + (OXU, SIZ) if x]))
    VAL = TStr('value')
    e.items = e.slist(TTuple(TOpt(*[TConst(x) for x in SPECIAL] + [TStr('nonempty', 'label', 'no:: ', 'pre:Multibag-'), TStr(*OTHER)]),
                             TOpt(VAL, TList(VAL))), 'items')
    e.hv = p.attrs['head_version']
    np = e.slist(TStr(), 'nopass', ('nopass',))
    e.assume(int_term(e.length(np)) > 0)
    k, r = e.meth(p, 'apply_iter', e.outdir, None, np)


for _n in sorted(LABELS):
    def f(e):
        """for any value: the lines each bag gets are those due: what the source has for labels to be passed on, transformed as
        documented for the special ones, the multibag version and tag directory, and the head version in the head bag only"""
        info(e)
    contract('the bag-info written (%s)' % _n, 'C03 C04' if _n == 'multibag labels' else 'C03', setup=info_setup(LABELS[_n]), seconds=600)(f)


# ---------------------------------------------------------------- the payload totals
def oxum_setup(e):
    e.VAL = z3.String('VAL*')

    def check(e, m, c):
        text = uf('int2str', I, S)
        v = z3.Concat(text(e.measure(c, 'psz')), lit('.'), text(e.measure(c, 'pct')))
        e.oblige('the total size and number of its payload files', count(e, 'bag-info.txt', 'bl') == b2i(e.VAL == v))
    common(e, ['bag-info.txt'], ['psz', 'pct'], check, opts=())
    e.measures.append(Measure('bl', is_ev('line'), lambda e, v: b2i(z3.And(
        line_label(e, v.attrs['a'], OXU), str_term(v.attrs['b']) == e.VAL)), unit=True))


@contract('the payload totals written', 'C03 C04', setup=oxum_setup, seconds=600)
def oxum(e):
    """the Payload-Oxum of each bag is the total size and the number of the payload files listed for it that the source has"""
    p = plan(e)
    e.items = e.mk([(OXU, e.sstr('value')), ('Contact-Name', e.sstr('value'))])
    e.meth(p, 'apply_iter', e.outdir)
