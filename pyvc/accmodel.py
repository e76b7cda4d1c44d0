"""Paths as opaque strings with the laws of os.path (POSIX), and a record of every file-system call.
Trusted laws: normpath is idempotent; a relative path that relpath gives for a place below a root leads, joined to any directory, below that
directory, and so does its dirname; trailing slashes do not matter to normpath.  Symbolic links are not resolved."""
from core import *
from program import *
import strs
from strs import uf

S, B, I = z3.StringSort(), z3.BoolSort(), z3.IntSort()
NORM, PJOIN, RELP, DIRN = uf('os_normpath', S, S), uf('pjoin', S, S, S), uf('os_relpath', S, S, S), uf('pdirname', S, S)
SLASH = z3.StringVal('/')


def norm(e, t):
    n = NORM(t)
    e.assume(NORM(n) == n)
    d = t.decl().name() if z3.is_app(t) else ''
    if d == 'strip_r_2f_':
        e.assume(z3.Or(t == z3.StringVal(''), n == NORM(t.arg(0))))
    return n


def withslash(t):
    return z3.If(z3.SuffixOf(SLASH, t), t, z3.Concat(t, SLASH))


def inside(e, root, p):
    """p names the directory root or a place below it"""
    r, q = norm(e, str_term(root)), norm(e, str_term(p))
    return z3.Or(q == r, z3.PrefixOf(withslash(r), q))


def start(e):
    e.touched, e.belowof = [], []


def fsans(e, what, p):
    """what the file system says about a path"""
    t = z3.Const(fresh_name(what), B)
    e.answers.append((what, str_term(p), t))
    return SBool(t)


def pathargs(e, *ps):
    for p in ps:
        if not is_str(p):
            raise e.pyexc('TypeError', 'path should be a string')


def setup(e):
    m = e.models
    e.answers = []

    def join(e, a, kw):
        from interp import StarSeg
        if any(isinstance(x, StarSeg) for x in a):
            e.inexact('os.path.join(*list)')
            return SStr([Atom(z3.Const(fresh_name('joined'), S))])
        pathargs(e, *a)
        if all(isinstance(x, str) for x in a):
            import posixpath
            return posixpath.join(*a)
        r = a[0]
        for x in a[1:]:
            if x == '':
                t = withslash(str_term(r))
                r = SStr([Atom(z3.simplify(t), ['nonempty'])])
                e.assume(str_term(r) == t)
                continue
            t = PJOIN(str_term(r), str_term(x))
            ps = str_parts(x)
            if len(ps) == 1 and isinstance(ps[0], Atom) and 'below' in ps[0].tags:
                e.assume(inside(e, r, SStr([Atom(t)])))
                e.belowof.append((t, str_term(r)))
            r = SStr([Atom(t, ['nonempty'])])
        return r

    def dirname(e, a, kw):
        pathargs(e, a[0])
        t = str_term(a[0])
        d = SStr([Atom(DIRN(t))])
        for x, r in e.belowof:
            if x.eq(t):
                e.assume(inside(e, SStr([Atom(r)]), d))
        return d

    def normpath(e, a, kw):
        pathargs(e, a[0])
        return SStr([Atom(norm(e, str_term(a[0])), ['nonempty'])])

    def relpath(e, a, kw):
        pathargs(e, *a)
        if len(a) != 2:
            raise Unsupported('relpath')
        ok = e.entails(inside(e, a[1], a[0]))
        return SStr([Atom(RELP(str_term(a[0]), str_term(a[1])), ['nonempty', 'below'] if ok else ['nonempty'])])
    m['os.path.join'], m['os.path.dirname'], m['os.path.normpath'], m['os.path.relpath'] = join, dirname, normpath, relpath

    def reader(name, what):
        def f(e, a, kw):
            if name.startswith('os.path.') and a[0] is None:
                raise e.pyexc('TypeError', 'path should be a string')
            pathargs(e, a[0])
            e.touched.append((name, 'r', a[0]))
            return fsans(e, what, a[0])
        m[name] = f
    for n in ('exists', 'lexists'):
        reader('os.path.' + n, 'exists')
    reader('os.path.isdir', 'isdir')
    reader('os.path.isfile', 'isfile')
    reader('os.path.islink', 'islink')

    def stat(e, a, kw):
        pathargs(e, a[0])
        e.touched.append(('os.stat', 'r', a[0]))
        if e.choose(2):
            raise e.pyexc('OSError', 2, 'no such file')
        sz = z3.Int(fresh_name('size'))
        e.answers.append(('size', str_term(a[0]), sz))
        return e.newobj(Obj(Builtin('object'), {'st_size': SInt(sz), 'st_ctime': e.fresh(TReal, 'ct'), 'st_mtime': e.fresh(TReal, 'mt'), 'st_atime': e.fresh(TReal, 'at')}))
    m['os.stat'] = stat
    m['os.path.getsize'] = lambda e, a, kw: stat(e, a, kw).attrs['st_size']

    def opener(e, a, kw):
        pathargs(e, a[0])
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        if not isinstance(mode, str):
            raise Unsupported('open mode')
        e.touched.append(('open', 'r' if mode.strip('bt') == 'r' else 'w', a[0]))
        if e.choose(2):
            raise e.pyexc('OSError', 2, 'no such file')
        return e.newobj(Obj(Ext('file*'), {'path': a[0]}))
    m['codecs.open'] = m['io.open'] = m['builtins.open'] = opener

    def writer(name, *modes):
        def f(e, a, kw):
            pathargs(e, *a[:len(modes)])
            for x, md in zip(a, modes):
                e.touched.append((name, md, x))
            if e.choose(2):
                raise e.pyexc('OSError', 5, 'failed')
            return None
        m[name] = f
    for n in ('os.mkdir', 'os.makedirs', 'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.rmtree', 'os.utime', 'os.chmod', 'os.truncate'):
        writer(n, 'w')
    for n in ('os.link', 'os.symlink', 'shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.copytree', 'shutil.copymode', 'shutil.copystat'):
        writer(n, 'r', 'w')
    for n in ('os.rename', 'os.renames', 'os.replace', 'shutil.move'):
        writer(n, 'w', 'w')

    def samefile(e, a, kw):
        pathargs(e, *a)
        return SBool(z3.Const(fresh_name('same'), B))
    m['os.path.samefile'] = samefile

    def walk(e, a, kw):
        pathargs(e, a[0])
        e.touched.append(('os.walk', 'r', a[0]))
        return e.slist(TTuple(TStr(), TList(TStr('nonempty')), TList(TStr('nonempty'))), 'walk')
    m['os.walk'] = walk

    def listdir(e, a, kw):
        pathargs(e, a[0])
        e.touched.append(('os.listdir', 'r', a[0]))
        return e.slist(TStr('nonempty'), 'listdir')
    m['os.listdir'] = listdir

    old = m['re.split']

    def split(e, a, kw):
        if len(a) == 2 and is_str(a[1]) and not isinstance(a[1], str):
            e.inexact('re.split')
            return e.slist(TStr(), 'split')
        return old(e, a, kw)
    m['re.split'] = split
