"""C09: entries of the multibag tag files survive formatting and parsing."""
from vc import *
import strs
from strs import uf
from interp import StarSeg

FIELD = ('nonempty', 'stripped', 'no:\t', 'no:\n', 'no:\r')


def member(e, nohash=()):
    """any member entry of C09: its name, URI, comment, extra fields"""
    name = e.sstr('name', *FIELD)
    uri = None if e.choose(2) else e.sstr('uri', 'nohash', *FIELD)
    comm = None if e.choose(2) else e.sstr('comm', *(FIELD + nohash))
    info = e.slist(TStr('nohash', *FIELD), 'info')
    return name, uri, comm, info


def same_opt(e, name, got, want):
    if want is None or got is None:
        e.oblige(name, got is None and want is None)
    else:
        e.oblige(name, e.eqt(got, want))


def entry(e, r, name, uri, comm, info):
    e.oblige('the name', e.eqt(r.attrs['name'], name))
    same_opt(e, 'the URI', r.attrs['uri'], uri)
    same_opt(e, 'the comment', r.attrs['comment'], comm)
    e.same_elems('the extra fields', r.attrs['info'], info)


@contract('a member entry written and read', 'C09')
def roundtrip(e):
    """format() then parse_line_03() gives the same name, URI, comment and extra fields; the entry is one line"""
    name, uri, comm, info = member(e)
    mi = e.obj('access.multibag.MemberInfo', name=name, uri=uri, comment=comm, info=info)
    k, s = e.meth(mi, 'format')
    e.oblige('is formatted', k == 'ret')
    body = strs.slice_str(e, s, None, -1)
    e.oblige('one line', z3.And(e.eqt(s, strs.concat(body, '\n'))))
    e.oblige('formatting changes nothing', z3.And(e.eqt(mi.attrs['name'], name), z3.BoolVal(mi.attrs['info'] is info)))
    k, r = e.do('access.multibag.MemberInfo.parse_line_03', e.get('access.multibag.MemberInfo'), s)
    e.oblige('is parsed', k == 'ret')
    entry(e, r, name, uri, comm, info)
    e.cover()


@contract('making a member entry', 'C09 C10')
def making(e):
    """MemberInfo() keeps what it is given; its list of extra fields is its own"""
    name, uri, comm, info = member(e)
    k, r = e.run(lambda: e.call(e.get('access.multibag.MemberInfo'), [name, uri, comm] + [StarSeg(x) for x in info.segs], {}))
    e.oblige('is made', k == 'ret')
    entry(e, r, name, uri, comm, info)
    e.cover()


@contract('a member line', 'C09', covers=('entry', 'rejected'))
def member_line(e):
    """spaces around the line and after the name do not matter; a line without a name is rejected"""
    if e.choose(2):
        pad = [' ', '   ', ''][e.choose(3)]
        name, uri, comm, info = member(e, ('nohash',))
        parts = [pad] + list(str_parts(name)) + [pad]
        if uri is not None:
            parts += ['\t'] + list(str_parts(uri))
        elif e.choose(2):
            e.assume(int_term(e.length(info)) == 0)
        else:
            parts += ['\t']
            e.assume(int_term(e.length(info)) > 0)
        if e.decide(int_term(e.length(info)) > 0):
            parts += ['\t'] + list(str_parts(strs.join(e, '\t', info)))
        if comm is not None:
            parts += ['\t', ['#', '# ', '##  '][e.choose(3)]] + list(str_parts(comm))
        parts += [['', '\n', '\r\n', '  \n'][e.choose(4)]]
        k, r = e.do('access.multibag.MemberInfo.parse_line_03', e.get('access.multibag.MemberInfo'), mkstr(parts))
        e.oblige('is parsed', k == 'ret')
        entry(e, r, name, uri, comm, info)
        e.cover('entry')
    else:
        line = ['', '\n', '  \n', '\t\n', ' \t \r\n'][e.choose(5)]
        k, r = e.do('access.multibag.MemberInfo.parse_line_03', e.get('access.multibag.MemberInfo'), line)
        e.oblige('a line without a name is rejected', k == 'raise' and e.is_exc(r, 'access.exceptions.MultibagError'))
        e.cover('rejected')


@contract('a lookup line', 'C09', covers=('entry', 'rejected'))
def lookup_line(e):
    """the path and the bag name before and after the first tab, without the spaces around them; a line with no tab is rejected"""
    path, bag = e.sstr('path', *FIELD), e.sstr('bag', *FIELD)
    pads = ['', ' ', '    ']
    nl = ['', '\n', '\r\n', ' \n', '\textra\n'][e.choose(5)]
    if e.choose(2):
        line = mkstr([pads[e.choose(3)]] + list(str_parts(path)) + [pads[e.choose(3)] + '\t' + pads[e.choose(3)]] + list(str_parts(bag)) + [nl])
        k, r = e.do('access.multibag.parse_file_lookup_line_03', line)
        e.oblige('is parsed', k == 'ret' and isinstance(r, tuple) and len(r) == 2)
        e.oblige('the path', e.eqt(r[0], path))
        e.oblige('the bag', e.eqt(r[1], bag))
        e.cover('entry')
    else:
        if nl.startswith('\t'):
            raise PathEnd()
        line = mkstr(list(str_parts(path)) + [nl])
        k, r = e.do('access.multibag.parse_file_lookup_line_03', line)
        e.oblige('a line without a bag name is rejected', k == 'raise' and e.is_exc(r, 'access.exceptions.MultibagError'))
        e.cover('rejected')


W = FIELD + ('no: ', 'nows')


@contract('lines of the older formats', 'C09', covers=('member', 'lookup', 'rejected'))
def old_lines(e):
    """fields separated by runs of spaces"""
    a, b = e.sstr('a', *W), e.sstr('b', *W)
    pad = [' ', '  ', '    '][e.choose(3)]
    nl = ['', '\n', '\r\n', ' \n'][e.choose(4)]
    lead = ['', ' '][e.choose(2)]
    w = e.choose(5)
    cls = e.get('access.multibag.MemberInfo')
    two = mkstr([lead] + list(str_parts(a)) + [pad] + list(str_parts(b)) + [nl])
    one = mkstr([lead] + list(str_parts(a)) + [nl])
    if w == 0:
        k, r = e.do('access.multibag.MemberInfo.parse_line_02', cls, two)
        e.oblige('member with a URI is parsed', k == 'ret')
        entry(e, r, a, b, None, e.mk([]))
        e.cover('member')
    elif w == 1:
        k, r = e.do('access.multibag.MemberInfo.parse_line_02', cls, one)
        e.oblige('member without a URI is parsed', k == 'ret')
        entry(e, r, a, None, None, e.mk([]))
    elif w == 2:
        k, r = e.do('access.multibag.parse_group_directory_line', two)
        e.oblige('lookup entry is parsed', k == 'ret' and isinstance(r, tuple) and len(r) == 2)
        e.oblige('the path', e.eqt(r[0], a))
        e.oblige('the bag', e.eqt(r[1], b))
        e.cover('lookup')
    elif w == 3:
        k, r = e.do('access.multibag.parse_group_directory_line', one)
        e.oblige('a lookup line without a bag name is rejected', k == 'raise' and e.is_exc(r, 'access.exceptions.MultibagError'))
        e.cover('rejected')
    else:
        k, r = e.do('access.multibag.MemberInfo.parse_line_02', cls, mkstr([lead, nl]))
        e.oblige('a member line without a name is rejected', k == 'raise' and e.is_exc(r, 'access.exceptions.MultibagError'))


@contract('a deletion line', 'C09')
def deletion_line(e):
    """the path, without the space around it"""
    p = e.sstr('path', *FIELD)
    line = mkstr([['', '  '][e.choose(2)]] + list(str_parts(p)) + [['', '\n', '\r\n', '  \n'][e.choose(4)]])
    k, r = e.do('access.multibag.parse_deleted_line_04', line)
    e.oblige('is parsed', k == 'ret')
    e.oblige('the path', e.eqt(r, p))
    e.cover()
