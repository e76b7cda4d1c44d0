"""C10, C09: what saving the head-bag data writes."""
from vc import *
import textmodel
from strs import uf
from ct_c10_headbag import *

FMT = z3.Function('line*', I, S)


def saving(e):
    setup(e)
    e.jfree = True
    e.tagged = e.tagged_choice = None

    def fmt(e, fn, args, kw):
        """'a member entry written and read': one line, from the entry alone"""
        m = args[0]
        if 'id*' not in m.attrs:
            raise Unsupported('an entry made on the way')
        return SStr([Atom(FMT(int_term(m.attrs['id*'])), ['nonempty', 'end:\n'])])
    e.summaries['access.multibag.MemberInfo.format'] = fmt
    e.small_members = True


def line_cands(want):
    def cands(e, st):
        out = []
        for l, x in sorted(st.entry.items(), key=lambda i: str(i[0])):
            sh = st.H[l]
            if x[0] == 'list' and sh.k == 'list' and sh.elem is not None and sh.elem.k == 'str':
                def same(s, l=l):
                    v = s.summ(s.read(l))
                    if not v[1]['segs*']:
                        return z3.BoolVal(True)
                    return z3.Implies(z3.And(e.J >= 0, e.J < v[1]['n']), e.leaf_at(v[1]['segs*'], (), e.J) == want(e, s))
                out.append(('lines %d' % len(out), same))
        return out
    return cands


def saved(e, st, fname, n, want):
    """exactly one file was written: this one, with these lines"""
    path = e.models['os.path.join'](e, [st.bagdir, st.tagdir, fname], {})
    tdir = e.models['os.path.join'](e, [st.bagdir, st.tagdir], {})
    e.oblige('one file is written', len(e.opened) == 1 and e.opened[0].attrs['mode'] == 'w')
    h = e.opened[0]
    e.oblige('it is the tag file', e.eqt(h.attrs['path'], path))
    l = h.attrs['lines']
    e.oblige('as many lines as entries', int_term(e.length(l)) == n)
    if l.segs:
        e.oblige('each line is that of its entry', z3.Implies(z3.And(e.J >= 0, e.J < n), e.leaf_at(l, (), e.J) == want))
    for what, p in e.acts:
        e.oblige('no other file is touched', z3.And(z3.BoolVal(what == 'mkdir'), e.eqt(p, tdir)))
    e.oblige('the tag directory is there', bool(e.acts) or e.existing.get(str_term(tdir).sexpr()) is True)


def tagdir(e):
    e.tagged = e.choose(2) == 1


def save_members_setup(e):
    saving(e)
    e.cands = [line_cands(lambda e, s: FMT(e.at(e.saving, e.J, (('f', 'id*'),))))]


@contract('saving the members', 'C10 C09', setup=save_members_setup, covers=('nothing', 'saved'))
def save_members(e):
    """the file holds the line of each member, in order; without changes it is left alone"""
    tagdir(e)
    hb, st = headbag(e, lookup=False, deleted=False)
    e.saving = hb.attrs['_memberbags'] or e.mk([])
    k, r = e.meth(hb, 'save_member_bags')
    e.oblige('returns', k == 'ret')
    if not st.mem_read:
        e.cover('nothing')
        e.oblige('nothing is written', not e.opened and not e.acts)
        return
    e.cover('saved')
    saved(e, st, 'member-bags.tsv', int_term(e.length(e.saving)), FMT(e.at(e.saving, e.J, (('f', 'id*'),))))
    same_members(e, hb, st)


NL = z3.StringVal('\\u{a}')


def lookup_line(e, s=None):
    m = e.saving
    k = e.keys_seg(m).sel((), e.J)
    return z3.Concat(k, z3.StringVal('\\u{9}'), z3.Select(m.val[()], k), NL)


def save_lookup_setup(e):
    saving(e)
    e.cands = [line_cands(lookup_line)]


@contract('saving the file lookup', 'C10 C09', setup=save_lookup_setup, covers=('nothing', 'saved'))
def save_lookup(e):
    """the file holds a line with the path, a tab and the bag for each entry, in the order of the entries"""
    tagdir(e)
    hb, st = headbag(e, members=False, deleted=False)
    e.saving = hb.attrs['_filelu']
    k, r = e.meth(hb, 'save_file_lookup')
    e.oblige('returns', k == 'ret')
    if not st.lu_read:
        e.cover('nothing')
        e.oblige('nothing is written', not e.opened and not e.acts)
        return
    e.cover('saved')
    saved(e, st, 'file-lookup.tsv', e.keys_seg(e.saving).n, lookup_line(e))
    same_lookup(e, hb, st)


def deleted_line(e, s=None):
    return z3.Concat(e.keys_seg(e.saving).sel((), e.J), NL)


def save_deleted_setup(e):
    saving(e)
    e.cands = [line_cands(deleted_line)]


@contract('saving the deletion marks', 'C10 C09', setup=save_deleted_setup, covers=('nothing', 'saved', 'removed', 'absent'))
def save_deleted(e):
    """the file holds the marked paths, each on a line; without any there is no file"""
    tagdir(e)
    hb, st = headbag(e, members=False, lookup=False)
    e.saving = hb.attrs['_deleted']
    k, r = e.meth(hb, 'save_deleted')
    e.oblige('returns', k == 'ret')
    if not st.del_read:
        e.cover('nothing')
        e.oblige('nothing is written', not e.opened and not e.acts)
        return
    same_deleted(e, hb, st)
    if e.decide(int_term(e.length(e.saving)) == 0):
        path = e.models['os.path.join'](e, [st.bagdir, st.tagdir, 'deleted.txt'], {})
        e.oblige('nothing is marked', z3.Not(st.del0))
        e.oblige('no file is written', not e.opened)
        there = e.models['os.path.exists'](e, [path], {})
        e.cover('removed' if there else 'absent')
        e.oblige('nothing but the old file is removed', z3.And(*[z3.And(z3.BoolVal(w == 'remove'), e.eqt(p, path)) for w, p in e.acts]))
        e.oblige('the old file goes', len(e.acts) == (1 if there else 0))
        return
    e.cover('saved')
    saved(e, st, 'deleted.txt', e.keys_seg(e.saving).n, deleted_line(e))


@contract('clearing the file lookup', 'C10', setup=saving)
def clear_lookup(e):
    """no entry is left, in memory or on disk"""
    tagdir(e)
    hb, st = headbag(e, members=False, deleted=False)
    path = e.models['os.path.join'](e, [st.bagdir, st.tagdir, 'file-lookup.tsv'], {})
    there = e.models['os.path.exists'](e, [path], {})
    k, r = e.meth(hb, 'clear_file_lookup')
    e.oblige('returns', k == 'ret')
    e.oblige('the data are there', hb.attrs['_filelu'] is not None)
    h, v, o = lookup_now(e, hb)
    e.oblige('no entry is left', z3.Not(h))
    e.oblige('the file goes', len(e.acts) == (1 if there else 0))
    e.oblige('nothing else is touched', z3.And(z3.BoolVal(not e.opened), *[z3.And(z3.BoolVal(w == 'remove'), e.eqt(p, path)) for w, p in e.acts]))
    same_members(e, hb, st)
    same_deleted(e, hb, st)
    e.cover()
