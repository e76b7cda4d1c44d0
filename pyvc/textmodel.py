"""Text files written or read as sequences of lines; each file is opened under one name, outside of loops over unknown numbers of files."""
from core import *
from program import *
import strs

H = 'text*'


def setup(e):
    """io.open and os calls that act on e.opened / e.acts (both to be reset by the contract)"""
    m = e.models
    m['builtins.open'] = m['io.open'] = m['codecs.open'] = t_open
    m[H + '.__enter__'] = lambda e, a, kw: a[0]
    m[H + '.__exit__'] = m[H + '.close'] = t_close
    m[H + '.write'] = t_write
    m['iter:' + H] = t_iter
    m['os.path.exists'] = lambda e, a, kw: t_exists(e, a[0])
    m['os.path.isdir'] = lambda e, a, kw: t_exists(e, a[0])
    m['os.mkdir'] = m['os.makedirs'] = lambda e, a, kw: e.acts.append(('mkdir', a[0]))
    m['os.remove'] = m['os.unlink'] = lambda e, a, kw: e.acts.append(('remove', a[0]))


def start(e):
    e.opened, e.acts, e.existing, e.content = [], [], {}, {}


def t_exists(e, path):
    k = str_term(path).sexpr()
    if k not in e.existing:
        e.existing[k] = e.choose(2) == 1
    return e.existing[k]


def t_open(e, a, kw):
    path = a[0]
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if not isinstance(mode, str) or mode.strip('bt') not in ('r', 'w', 'a') or not is_str(path):
        raise Unsupported('open(%r)' % (mode,))
    if e.quiet:
        raise Unsupported('a file opened in a loop')
    h = e.newobj(Obj(Ext(H), {'path': path, 'mode': mode.strip('bt'), 'lines': e.newobj(PList())}))
    e.opened.append(h)
    return h


def t_close(e, a, kw):
    return None


def complete(s):
    p = str_parts(s)[-1] if str_parts(s) else ''
    return p.endswith('\n') if isinstance(p, str) else 'end:\n' in p.tags


def t_write(e, a, kw):
    h, s = a
    if h.attrs['mode'] == 'r' or not is_str(s):
        raise Unsupported('write')
    add(e, h.attrs['lines'], s)
    return strs.slen(s)


def add(e, lst, s):
    """append text to a list of lines: it continues the last line if that has not ended"""
    e.wr(lst)
    if lst.segs and isinstance(lst.segs[-1], El) and not complete(lst.segs[-1].v):
        lst.segs[-1] = El(strs.concat(lst.segs[-1].v, s))
    elif lst.segs and isinstance(lst.segs[-1], SymSeg) and 'end:\n' not in lst.segs[-1].shape.tags and not e.entails(lst.segs[-1].n == 0):
        raise Unsupported('text after a line that may not have ended')
    else:
        lst.segs.append(El(s))


def t_iter(e, a, kw):
    return a[0].attrs['lines']
