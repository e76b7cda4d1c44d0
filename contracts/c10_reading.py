"""C09: the tag files of a head bag are read as the version it declares says."""
from vc import *
import textmodel
import strs
from strs import uf
from ct_c10_headbag import PATH, NAME, S, I, B, b2i

MB = 'access.multibag.'
STRIP = uf('strip_lr', S, S)
ENTRY = dict((v, z3.Function('entry%s*' % v, S, I)) for v in ('02', '03'))
LPATH = dict((v, z3.Function('lpath%s*' % v, S, S)) for v in ('02', '03'))
LBAG = dict((v, z3.Function('lbag%s*' % v, S, S)) for v in ('02', '03'))


BAG = z3.String('BAG*')


def ver(e):
    return '02' if e.old else '03'


def stripped(e, line):
    return str_term(strs.strip(e, line))


def setup(e):
    e.jfree = True
    textmodel.setup(e)
    t = Measure('t', lambda sh: sh.k == 'str' and 'line' in sh.tags,
                lambda e, v: b2i(z3.And(STRIP(str_term(v)) == e.K, STRIP(str_term(v)) != z3.StringVal(''))), unit=True)
    cls = e.get(MB + 'MemberInfo')
    r = Measure('r', lambda sh: sh.k == 'rec' and sh.cls is cls and 'src*' in sh.fields, lambda e, v: b2i(str_term(v.attrs['src*']) == e.K), unit=True)
    isp = lambda sh: sh.k == 'tuple' and len(sh.els) == 2 and all(x.k == 'str' for x in sh.els)
    lk = Measure('lk', isp, lambda e, v: b2i(z3.And(str_term(v[0]) == e.K, str_term(v[1]) == BAG)), unit=True)

    def isl(e, v):
        x, w = STRIP(str_term(v)), ver(e)
        return b2i(z3.And(x != z3.StringVal(''), LPATH[w](x) == e.K, LBAG[w](x) == BAG))
    tl = Measure('tl', lambda sh: sh.k == 'str' and 'line' in sh.tags, isl, unit=True)
    d = Measure('d', lambda sh: sh.k == 'str' and 'stripped' in sh.tags, lambda e, v: b2i(str_term(v) == e.K), unit=True)
    e.measures = [t, r, lk, tl, d]
    e.K = z3.String('K*')

    def member(v):
        def f(e, fn, args, kw):
            """'a member line', 'lines of the older formats': the entry depends on the stripped line only"""
            k = stripped(e, args[-1])
            return e.obj(MB + 'MemberInfo', **{'id*': wrap_int(ENTRY[v](k)), 'src*': SStr([Atom(k)])})
        return f

    def lookup(v):
        def f(e, fn, args, kw):
            k = stripped(e, args[-1])
            return (SStr([Atom(LPATH[v](k))]), SStr([Atom(LBAG[v](k))]))
        return f
    e.summaries[MB + 'MemberInfo.parse_line_03'] = member('03')
    e.summaries[MB + 'MemberInfo.parse_line_02'] = member('02')
    e.summaries[MB + 'parse_file_lookup_line_03'] = lookup('03')
    e.summaries[MB + 'parse_group_directory_line'] = lookup('02')

    def lt(e, fn, args, kw):
        """Version comparison (C12): the declared version is below 0.3 or not"""
        v, o = args
        if not (isinstance(o, str) and o in ('0.3', '0.4')):
            raise Unsupported('comparison with version %r' % (o,))
        if str_term(v.attrs['vs']).eq(z3.String('declared*')):
            e.declared = True
        return e.old if o == '0.3' else e.old or e.is03
    e.summaries['constants.Version.__init__'] = lambda e, fn, a, kw: e.setattr(a[0], 'vs', a[1])
    e.summaries['constants.Version.__lt__'] = lt
    e.summaries['constants.Version.__ge__'] = lambda e, fn, a, kw: not lt(e, fn, a, kw)
    for b in ('access.extended._ExtendedReadWritableMixin.',):
        e.summaries[b + 'isfile'] = lambda e, fn, a, kw: textmodel.t_exists(e, a[1])
        e.summaries[b + 'exists'] = lambda e, fn, a, kw: textmodel.t_exists(e, a[1])
        e.summaries[b + 'open_text_file'] = open_text


def open_text(e, fn, args, kw):
    h = textmodel.t_open(e, [args[1], 'r'], {})
    h.attrs['lines'] = e.newobj(PList(list(e.lines.segs)))
    e.oblige('an existing file is read', textmodel.t_exists(e, args[1]))
    return h


def bag(e):
    textmodel.start(e)
    e.old = e.choose(2) == 1
    e.is03 = False
    tagdir = e.sstr('tagdir', 'nonempty')
    d = {'Multibag-Tag-Directory': tagdir, 'Multibag-Version': SStr([Atom(z3.String('declared*'), ['nonempty'])])}
    e.lines = e.slist(TStr('line'), 'lines')
    e.blanks = e.choose(2) == 1
    if not e.blanks:
        e.add_fact(e.lines.segs[0], lambda j, v: STRIP(str_term(v)) != z3.StringVal(''))
    info = e.newobj(PDict(d))
    info.origin = None
    return e.obj('access.multibag.HeadBag', _bagdir=e.sstr('bagdir', 'nonempty'), info=info), tagdir


def elem_cands(paths):
    def cands(e, st):
        out = []
        for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
            sh = st.H[l]
            if x[0] == 'list' and sh.k == 'list' and sh.elem is not None:
                try:
                    lv = [p for p, _ in e.leaves(sh.elem)]
                except Unsupported:
                    continue
                for p, f in paths(e):
                    if p in lv:
                        def same(s, l=l, p=p, f=f):
                            v = s.summ(s.read(l))
                            if not v[1]['segs*']:
                                return z3.BoolVal(True)
                            return z3.Implies(z3.And(e.J >= 0, e.J < v[1]['n']), e.leaf_at(v[1]['segs*'], p, e.J) == f(e.lines.segs[0].sel((), e.J)))
                        out.append(('read %d' % len(out), same))
        return out
    return cands


def member_leaves(e):
    v = ver(e)
    return [((('f', 'id*'),), lambda t: ENTRY[v](STRIP(t))), ((('f', 'src*'),), STRIP)]


def lookup_leaves(e):
    v = ver(e)
    return [((0,), lambda t: LPATH[v](STRIP(t))), ((1,), lambda t: LBAG[v](STRIP(t))),
            ((('t', 0),), lambda t: LPATH[v](STRIP(t))), ((('t', 1),), lambda t: LBAG[v](STRIP(t)))]


def deleted_leaves(e):
    return [((), STRIP)]


def reading(e, method, old, new, leaves, got, want, missing=True):
    hb, tagdir = bag(e)
    path = strs.concat(tagdir, '/' + (old if e.old else new))
    there = textmodel.t_exists(e, path)
    k, r = e.meth(hb, method)
    if k == 'ret':
        k, r = e.run(lambda: e.to_list(r))
    if not there:
        e.cover('missing')
        if missing:
            e.oblige('a missing file is an error', k == 'raise' and e.is_exc(r, 'access.exceptions.MissingMultibagFileError'))
        else:
            e.oblige('a missing file lists nothing', k == 'ret' and not r.segs)
        return
    e.oblige('returns', k == 'ret')
    e.oblige('one file is read', len(e.opened) == 1 and not e.acts)
    e.oblige('the file of the version declared', e.eqt(e.opened[0].attrs['path'], path))
    n = e.lines.segs[0].n
    if not e.blanks:
        e.cover('read')
        e.oblige('an entry for each line', int_term(e.length(r)) == n)
        lv = [p for p, _ in e.leaves(r.segs[0].shape)] if r.segs else []
        done = 0
        for p, f in leaves(e):
            if p in lv:
                done += 1
                e.oblige('each entry is that of its line', z3.Implies(z3.And(e.J >= 0, e.J < n), e.leaf_at(r, p, e.J) == f(e.lines.segs[0].sel((), e.J))))
        e.oblige('the entries have their data', not r.segs or done == len(lv))
    else:
        e.cover('blanks')
        e.oblige('no more entries than lines', int_term(e.length(r)) <= n)
        m = e.measure(r, got) if r.segs else z3.IntVal(0)
        e.oblige('the entries can be told apart', m is not None)
        e.oblige('an entry for each line that is not blank', m == e.measure(e.lines, want))


def members_setup(e):
    setup(e)
    e.cands = [elem_cands(member_leaves)]


@contract('reading the members', 'C09', setup=members_setup, covers=('missing', 'read', 'blanks'))
def read_members(e):
    reading(e, 'iter_member_bags', 'group-members.txt', 'member-bags.tsv', member_leaves, 'r', 't')


def lookup_setup(e):
    setup(e)
    e.cands = [elem_cands(lookup_leaves)]


@contract('reading the file lookup', 'C09', setup=lookup_setup, covers=('missing', 'read', 'blanks'))
def read_lookup(e):
    reading(e, 'iter_file_lookup', 'group-directory.txt', 'file-lookup.tsv', lookup_leaves, 'lk', 'tl')


def deleted_setup(e):
    setup(e)
    e.cands = [elem_cands(deleted_leaves)]


@contract('reading the deletion marks', 'C09 C06', setup=deleted_setup, covers=('missing', 'read', 'blanks'))
def read_deleted(e):
    reading(e, 'iter_deleted', 'deleted.txt', 'deleted.txt', deleted_leaves, 'd', 't', missing=False)


# ---------------------------------------------------------------- the bag-info items read
def info_bag(e, tag):
    """(bag, 'none' / 'one' / 'list', the value): the tag is missing, given once, or any number of times"""
    mode = e.choose(3)
    d = {'Other': e.sstr('other')}
    v = None
    if mode == 1:
        v = e.sstr('value')
        d[tag] = v
    elif mode == 2:
        v = e.slist(TStr(), 'values')
        d[tag] = v
    info = e.newobj(PDict(d))
    info.origin = None
    return e.obj('access.multibag.HeadBag', info=info), ('none', 'one', 'list')[mode], v


def item(e, prop, tag, default):
    hb, mode, v = info_bag(e, tag)
    e.cover(mode)
    k, r = e.meth(hb, prop)
    if mode == 'list' and e.decide(e.seg_len(v) == 0):
        mode = 'none'
    if mode == 'none':
        if default is None:
            e.oblige('a missing value is an error', k == 'raise' and e.is_exc(r, 'access.exceptions.MultibagError'))
        else:
            e.oblige('a missing value has a default', k == 'ret' and r == default)
        return
    e.oblige('returns', k == 'ret')
    want = str_term(v) if mode == 'one' else e.at(v, e.seg_len(v) - 1, ())
    e.oblige('the (last) value given', str_term(r) == want)


def plain(e):
    e.seg_len = lambda l: int_term(e.length(l))


@contract('the head version', 'C09 C06', setup=plain, covers=('none', 'one', 'list'))
def head_version(e):
    """the last Multibag-Head-Version"""
    item(e, 'head_version', 'Multibag-Head-Version', None)


@contract('the profile version', 'C09', setup=plain, covers=('none', 'one', 'list'))
def profile_version(e):
    """the last Multibag-Version; the current one if there is none"""
    item(e, 'profile_version', 'Multibag-Version', e.get('access.multibag.CURRENT_VERSION'))


@contract('the tag directory', 'C09 C10', setup=plain, covers=('none', 'one', 'list'))
def tag_directory(e):
    """the last Multibag-Tag-Directory; 'multibag' if there is none"""
    item(e, 'multibag_tag_dir', 'Multibag-Tag-Directory', 'multibag')
