"""A ghost file system: files (size, content) and directories by path.  Different path strings are different files (no links, no '..')."""
from core import *
from program import *
from models import M, model
import strs
from strs import uf

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
FH = 'file*'


def new_fs(e):
    """any file system"""
    files = e.fresh(Sh('map', val=TRec({'size': TInt, 'data': TInt}), ktags=frozenset()), 'files')
    dirs = e.newobj(PSet(z3.Const(fresh_name('dirs'), z3.ArraySort(S, B))))
    e.fs = e.newobj(Obj(Builtin('fs*'), {'files': files, 'dirs': dirs, 'nfiles': e.sint('nfiles'), 'nbytes': e.sint('nbytes')}))
    return e.fs


def files(e):
    return e.fs.attrs['files']


def has(e, path):
    return z3.Select(files(e).has, str_term(path))


def isdir(e, path):
    return z3.Select(e.fs.attrs['dirs'].has, str_term(path))


def size(e, path):
    t = z3.Select(files(e).val[(('f', 'size'),)], str_term(path))
    e.assume(t >= 0)
    return t


def data(e, path):
    return z3.Select(files(e).val[(('f', 'data'),)], str_term(path))


def put(e, path, sz, dat):
    f = files(e)
    e.wr(f)
    p = str_term(path)
    h, s0 = z3.Select(f.has, p), z3.Select(f.val[(('f', 'size'),)], p)
    e.setattr(e.fs, 'nfiles', wrap_int(int_term(e.fs.attrs['nfiles']) + z3.If(h, z3.IntVal(0), z3.IntVal(1))))
    e.setattr(e.fs, 'nbytes', wrap_int(int_term(e.fs.attrs['nbytes']) + sz - z3.If(h, s0, z3.IntVal(0))))
    f.has = z3.Store(f.has, p, z3.BoolVal(True))
    f.val = {(('f', 'size'),): z3.Store(f.val[(('f', 'size'),)], p, sz), (('f', 'data'),): z3.Store(f.val[(('f', 'data'),)], p, dat)}


@model('builtins.open', 'io.open', 'codecs.open')
def m_open(e, a, kw):
    path = a[0]
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if not isinstance(mode, str) or not is_str(path):
        raise Unsupported('open')
    if 'fs' not in e.__dict__:
        raise Unsupported('open without a file system model')
    h = e.newobj(Obj(Ext(FH), {'path': path, 'mode': mode, 'size': 0, 'open': True}))
    if 'w' in mode:
        put(e, path, z3.IntVal(0), z3.IntVal(0))
    elif 'a' in mode:
        if e.decide(has(e, path)):
            h.attrs['size'] = wrap_int(size(e, path))
        else:
            put(e, path, z3.IntVal(0), z3.IntVal(0))
    else:
        if not e.decide(has(e, path)):
            raise e.pyexc('OSError', 2, 'no such file')
    return h


@model(FH + '.__enter__')
def m_enter(e, a, kw):
    return a[0]


@model(FH + '.write')
def m_write(e, a, kw):
    h, s = a
    if 'r' in h.attrs['mode'] and '+' not in h.attrs['mode']:
        raise e.pyexc('OSError', 'not writable')
    if not is_str(s):
        raise e.pyexc('TypeError', 'write() argument must be str')
    e.setattr(h, 'size', e.arith('Add', h.attrs['size'], strs.slen(s)))
    return strs.slen(s)


@model(FH + '.__exit__', FH + '.close')
def m_close(e, a, kw):
    h = a[0]
    if h.attrs['mode'][0] in 'wa' and h.attrs['open']:
        put(e, h.attrs['path'], int_term(h.attrs['size']), z3.Int(fresh_name('data')))
    h.attrs['open'] = False
    e.wr(h, 'open')
    return None


@model(FH + '.flush')
def m_flush(e, a, kw):
    h = a[0]
    put(e, h.attrs['path'], int_term(h.attrs['size']), z3.Int(fresh_name('data')))


def stat_exists(e, path):
    return z3.Or(has(e, path), isdir(e, path))


@model('os.stat')
def m_stat(e, a, kw):
    if not e.decide(stat_exists(e, a[0])):
        raise e.pyexc('OSError', 2, 'no such file')
    return e.newobj(Obj(Builtin('object'), {'st_size': wrap_int(size(e, a[0]))}))


@model('os.path.getsize')
def m_getsize(e, a, kw):
    if not e.decide(stat_exists(e, a[0])):
        raise e.pyexc('OSError', 2, 'no such file')
    return wrap_int(size(e, a[0]))


@model('os.path.exists', 'os.path.lexists')
def m_exists(e, a, kw):
    return wrap_bool(stat_exists(e, a[0]))


@model('os.path.isfile')
def m_isfile(e, a, kw):
    return wrap_bool(has(e, a[0]))


@model('os.path.isdir')
def m_isdir(e, a, kw):
    return wrap_bool(isdir(e, a[0]))


@model('os.mkdir', 'os.makedirs')
def m_mkdir(e, a, kw):
    d = e.fs.attrs['dirs']
    e.wr(d)
    d.has = z3.Store(d.has, str_term(a[0]), z3.BoolVal(True))
