"""C05: a split writes to no file that it may share with the source (files replicated can be hard links to those of the source), and to
nothing outside of the output directory.  One arbitrary path K is followed."""
from vc import *
import strs
from strs import uf
import ct_c03_writing as W

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
SPECIAL = uf('special file*', S, B)


def setup(e):
    W.common(e, [], [], lambda e, m, c: None)
    M = e.models
    w_open, replicate, mkdir = M['io.open'], M['prog*.replicate'], M['os.mkdir']

    def inside(e, p):
        out = strs.concat(e.outdir, '/')
        e.oblige('only the output directory is written to', z3.BoolVal(True) if W.place(e, p) is not None or 'parent' in tags(e, p) else
                 z3.PrefixOf(str_term(out), str_term(p)))

    def tags(e, p):
        return () if isinstance(p, str) else e.rope_tags(p)

    def copied(e, a, kw):
        inside(e, strs.concat(a[2], '/x'))
        e.oblige('the files generated are not shared', z3.And(*[str_term(a[1]) != z3.StringVal(g) for g in W.GEN]))
        if e.decide(str_term(a[1]) == e.K):
            e.setattr(e.log, 'shared', True)
        return replicate(e, a, kw)

    def opened(e, a, kw):
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        if not isinstance(mode, str) or set(mode) & set('wax+'):
            inside(e, a[0])
            p = W.place(e, a[0])
            if p is None and e.entails(z3.PrefixOf(str_term(e.outdir), str_term(a[0]))):
                raise Unsupported('a file of the output directory')
            if p is not None:
                r = p[1]
                if is_special(r):
                    e.assume(SPECIAL(str_term(r)))
                e.oblige('no file shared with the source is written to', z3.Not(z3.And(bool_term(e.log.attrs['shared']), str_term(r) == e.K)))
            return e.newobj(Obj(Ext('out*'), {}))
        return w_open(e, a, kw)

    def removed(e, a, kw):
        inside(e, a[0])

    def made(e, a, kw):
        inside(e, a[0])
        if W.place(e, a[0]) is None and 'parent' not in tags(e, a[0]) and not e.entails(z3.PrefixOf(str_term(e.outdir), str_term(a[0]))):
            return None
        return mkdir(e, a, kw)
    M['io.open'] = M['builtins.open'] = M['codecs.open'] = opened
    M['out*.write'] = M['out*.writelines'] = M['out*.__exit__'] = M['out*.close'] = lambda e, a, kw: None
    M['prog*.replicate'] = copied
    M['os.mkdir'] = M['os.makedirs'] = made
    M['os.remove'] = M['os.unlink'] = M['shutil.rmtree'] = removed

    def plain(e, seg, j, v):
        if seg.shape.k == 'str' and 'path' in seg.shape.tags:
            e.assume(z3.Not(SPECIAL(str_term(v))))
    e.hooks.append(plain)
    e.cands = [cands]


def is_special(r):
    ps = str_parts(r)
    if len(ps) == 1:
        return ps[0] in ('bag-info.txt', 'fetch.txt') if isinstance(ps[0], str) else 'base' in ps[0].tags
    return len(ps) == 3 and ps[0] in ('manifest-', 'tagmanifest-') and ps[2] == '.txt' and isinstance(ps[1], Atom) and 'alg' in ps[1].tags


def cands(e, st):
    def fine(s):
        sh = bool_term(s.read((e.log.uid, 'shared')))
        return z3.Implies(sh, z3.And(z3.Or(e.K == z3.StringVal('bagit.txt'), z3.Not(SPECIAL(e.K))), *[e.K != z3.StringVal(g) for g in W.GEN]))
    return [('shared are plain', fine)] if (e.log.uid, 'shared') in st.H else []


for _k, _n in enumerate(W.SOURCES):
    def f(e, k=_k):
        """whatever is planned (files other than the special ones): what is replicated is not written to afterwards, nor is anything
        outside of the output directory"""
        p = W.plan(e, head=k > 0)
        e.log.attrs['shared'] = False
        e.assume(z3.Not(SPECIAL(z3.StringVal('bagit.txt'))))
        e.members0 = e.lookup0 = None
        if k == 2:
            e.members0, e.lookup0 = e.slist(W.NAME, 'members'), e.slist(TTuple(W.PATH, W.NAME), 'lookup')
        e.meth(p, 'apply_iter', e.outdir)
    contract('what a split writes to (%s)' % _n, 'C05', setup=setup, seconds=300)(f)
