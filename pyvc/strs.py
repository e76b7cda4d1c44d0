"""Operations on ropes."""
import re
from core import *

WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]


_ufs = {}
S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()


def concat(a, b):
    return mkstr(tuple(str_parts(a)) + tuple(str_parts(b)))


def slen(v):
    if isinstance(v, str):
        return len(v)
    tot = z3.IntVal(0)
    for p in v.parts:
        tot = tot + (len(p) if isinstance(p, str) else z3.Length(p.t if isinstance(p, Atom) else joined_term(p)))
    return wrap_int(tot)


def part_eq(p, q):
    if isinstance(p, str) or isinstance(q, str):
        return p == q if isinstance(p, str) and isinstance(q, str) else False
    if isinstance(p, Atom) and isinstance(q, Atom):
        return p.t.eq(q.t) or z3.simplify(p.t).eq(z3.simplify(q.t))
    if isinstance(p, Joined) and isinstance(q, Joined):
        return p.sep == q.sep and p.seg is q.seg
    return False


def seq(eng, a, b):
    """a == b for strings"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = list(str_parts(a)), list(str_parts(b))
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0:1] = [x[n:]] if x[n:] else []
            pb[0:1] = [y[n:]] if y[n:] else []
        elif part_eq(x, y):
            pa.pop(0)
            pb.pop(0)
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            pa[-1:] = [x[:-n]] if x[:-n] else []
            pb[-1:] = [y[:-n]] if y[:-n] else []
        elif part_eq(x, y):
            pa.pop()
            pb.pop()
        else:
            break
    if not pa and not pb:
        return True
    for u, w in ((pa, pb), (pb, pa)):
        if not u and any((isinstance(p, str) and p) or (isinstance(p, Atom) and 'nonempty' in p.tags) for p in w):
            return False
        # a literal against atoms that exclude one of its characters or its beginning
        if len(u) == 1 and isinstance(u[0], str) and len(w) == 1 and isinstance(w[0], Atom):
            for t in w[0].tags:
                if t.startswith('no:') and t[3:] in u[0]:
                    return False
                if t == 'nohash' and u[0].startswith('#'):
                    return False
                if t.startswith('ne:') and t[3:] == u[0]:
                    return False
                if t.startswith('nopre:') and u[0].startswith(t[6:]):
                    return False
                if t.startswith('pre:') and not u[0].startswith(t[4:]):
                    return False
                if t == 'stripped' and u[0] != u[0].strip():
                    return False
    return wrap_bool(mkstr(pa) == mkstr(pb) if False else (str_term(mkstr(pa)) == str_term(mkstr(pb))))


def startswith(eng, s, pre):
    if isinstance(s, str) and isinstance(pre, str):
        return s.startswith(pre)
    if pre == '':
        return True
    ps, pp = list(str_parts(s)), list(str_parts(pre))
    while ps and pp:
        x, y = ps[0], pp[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            ps[0:1] = [x[n:]] if x[n:] else []
            pp[0:1] = [y[n:]] if y[n:] else []
        elif part_eq(x, y):
            ps.pop(0)
            pp.pop(0)
        else:
            break
    if not pp:
        return True
    if not ps:
        return False if any(isinstance(p, str) or 'nonempty' in getattr(p, 'tags', ()) for p in pp) else \
            wrap_bool(z3.Length(str_term(mkstr(pp))) == 0)
    if isinstance(ps[0], Atom) and isinstance(pp[0], str) and 'nonempty' in ps[0].tags:
        c = pp[0][0]
        if ('no:' + c) in ps[0].tags or (c == '/' and 'noslash0' in ps[0].tags) or (c == '#' and 'nohash' in ps[0].tags) or (c in WS and 'stripped' in ps[0].tags):
            return False
    if isinstance(ps[0], Atom) and len(pp) == 1 and isinstance(pp[0], str):
        for t in ps[0].tags:
            if t.startswith('nopre:') and pp[0].startswith(t[6:]) and len(ps) == 1:
                return False
            if t.startswith('pre:') and t[4:].startswith(pp[0]):
                return True
    return wrap_bool(z3.PrefixOf(str_term(mkstr(pp)), str_term(mkstr(ps))))


def endswith(eng, s, suf):
    if isinstance(s, str) and isinstance(suf, str):
        return s.endswith(suf)
    if suf == '':
        return True
    ps, pp = list(str_parts(s)), list(str_parts(suf))
    while ps and pp:
        x, y = ps[-1], pp[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            ps[-1:] = [x[:-n]] if x[:-n] else []
            pp[-1:] = [y[:-n]] if y[:-n] else []
        elif part_eq(x, y):
            ps.pop()
            pp.pop()
        else:
            break
    if not pp:
        return True
    if not ps:
        return False if any(isinstance(p, str) for p in pp) else wrap_bool(z3.Length(str_term(mkstr(pp))) == 0)
    if isinstance(ps[-1], Atom) and len(pp) == 1 and isinstance(pp[0], str) and ('end:' + pp[0]) in ps[-1].tags:
        return True
    if isinstance(ps[-1], Atom) and isinstance(pp[-1], str) and 'nonempty' in ps[-1].tags:
        c = pp[-1][-1]
        if ('no:' + c) in ps[-1].tags or (c == '/' and 'noendslash' in ps[-1].tags) or (c in WS and 'stripped' in ps[-1].tags):
            return False
    return wrap_bool(z3.SuffixOf(str_term(mkstr(pp)), str_term(mkstr(ps))))


def contains(eng, s, sub):
    if isinstance(s, str) and isinstance(sub, str):
        return sub in s
    if isinstance(sub, str):
        if not sub:
            return True
        ps = str_parts(s)
        if any(isinstance(p, str) and sub in p for p in ps):
            return True
        if len(sub) == 1 and all((isinstance(p, str) and sub not in p) or (isinstance(p, Atom) and ('no:' + sub) in p.tags) for p in ps):
            return False
    return wrap_bool(z3.Contains(str_term(s), str_term(sub)))


def strip(eng, s, chars=None, left=True, right=True):
    if isinstance(s, str) and (chars is None or isinstance(chars, str)):
        f = (s.strip if left and right else s.lstrip if left else s.rstrip)
        return f(chars) if chars is not None else f()
    if chars is not None and not isinstance(chars, str):
        raise Unsupported('strip of symbolic characters')
    parts = list(str_parts(s))
    cs = WS if chars is None else chars

    def done(a):
        if not isinstance(a, Atom) or 'nonempty' not in a.tags:
            return False
        if chars is None:
            return 'stripped' in a.tags or 'nows' in a.tags
        return all(('no:' + c) in a.tags or (c == '#' and left and not right and 'nohash' in a.tags) or
                   (c in WS and ('stripped' in a.tags or 'nows' in a.tags)) for c in cs)
    lo, ro = left, right
    while parts and lo:
        p = parts[0]
        if isinstance(p, str):
            q = p.lstrip(chars) if chars is not None else p.lstrip()
            if q:
                parts[0] = q
                lo = False
            else:
                parts.pop(0)
        elif isinstance(p, Joined):
            raise Unsupported('strip of a join')
        else:
            if done(p):
                lo = False
            break
    while parts and ro:
        p = parts[-1]
        if isinstance(p, str):
            q = p.rstrip(chars) if chars is not None else p.rstrip()
            if q:
                parts[-1] = q
                ro = False
            else:
                parts.pop()
        elif isinstance(p, Joined):
            # the last element of a join of non-empty stripped strings ends it
            if chars is None and p.seg.shape.k == 'str' and {'nonempty', 'stripped'} <= p.seg.shape.tags and \
                    eng.entails(p.seg.n > 0):
                ro = False
            else:
                raise Unsupported('strip of a join')
        else:
            if done(p):
                ro = False
            break
    if not parts:
        return ''
    if not lo and not ro:
        return mkstr(parts)
    # an atom at an end that may begin or end with such characters
    base = mkstr(parts)
    if chars is None and len(parts) == 1 and isinstance(parts[0], Atom) and ('stripped' in parts[0].tags or 'nows' in parts[0].tags):
        return base
    if isinstance(base, str):
        return strip(eng, base, chars, lo, ro)
    name = 'strip_%s%s' % ('l' if left else '', 'r' if right else '') + ('' if chars is None else '_' + ''.join('%x_' % ord(c) for c in chars))
    f = uf(name, S, S)
    t = f(base.t)
    tags = set()
    if left and right and chars is None:
        tags.add('stripped')
        if len(base.parts) == 1:
            tags |= set(x for x in base.parts[0].tags if x.startswith('no:') or x == 'nows')
    eng.assume(z3.Contains(base.t, t))
    if left and not right:
        eng.assume(z3.SuffixOf(t, base.t))
        for c in cs:
            eng.assume(z3.Not(z3.PrefixOf(z3.StringVal(zesc(c)), t))) if chars is not None else None
    if right and not left:
        eng.assume(z3.PrefixOf(t, base.t))
        for c in cs:
            eng.assume(z3.Not(z3.SuffixOf(z3.StringVal(zesc(c)), t))) if chars is not None else None
    # nothing to strip
    if chars is not None and len(chars) == 1:
        c = z3.StringVal(zesc(chars))
        cond = []
        if left:
            cond.append(z3.Not(z3.PrefixOf(c, base.t)))
        if right:
            cond.append(z3.Not(z3.SuffixOf(c, base.t)))
        eng.assume(z3.Implies(z3.And(*cond), t == base.t))
    eng.inexact('strip() of an arbitrary string')
    return SStr([Atom(t, tags)])


def split(eng, s, sep=None, maxsplit=None):
    """list of pieces as PList segments"""
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        return [El(x) for x in (s.split(sep) if maxsplit is None else s.split(sep, maxsplit))]
    if sep is None and maxsplit is None and len(str_parts(s)) == 1 and isinstance(str_parts(s)[0], Atom):
        return split_ws(eng, s)
    if sep is None or not isinstance(sep, str):
        raise Unsupported('split of a symbolic string on whitespace')
    if maxsplit is not None:
        raise Unsupported('split with maxsplit')
    tag = 'no:' + sep
    segs = []
    cur = []

    def flush():
        segs.append(El(mkstr(cur)))
        del cur[:]
    for p in s.parts:
        if isinstance(p, str):
            bits = p.split(sep)
            cur.append(bits[0])
            for b in bits[1:]:
                flush()
                cur.append(b)
        elif isinstance(p, Atom):
            if tag not in p.tags:
                if len(s.parts) == 1:
                    return split_atom(eng, p, sep)
                raise Unsupported('split of %r' % p)
            cur.append(p)
        else:
            if p.sep != sep or p.seg.shape.k != 'str' or tag not in p.seg.shape.tags:
                raise Unsupported('split of a join')
            if [c for c in cur if c != '']:
                raise Unsupported('split beside a join')
            del cur[:]
            if not eng.entails(p.seg.n > 0):
                raise Unsupported('split of a possibly empty join')
            segs.append(p.seg)
            cur.append('\0JOIN')
    # a join must be delimited on both sides
    out = []
    if cur:
        flush()
    for e in segs:
        if isinstance(e, El) and isinstance(e.v, str) and '\0JOIN' in e.v:
            if e.v != '\0JOIN':
                raise Unsupported('split beside a join')
            continue
        if isinstance(e, El) and isinstance(e.v, SStr) and any(isinstance(p, str) and '\0JOIN' in p for p in e.v.parts):
            raise Unsupported('split beside a join')
        out.append(e)
    return out


def split_atom(eng, a, sep):
    nm = ''.join('%x' % ord(c) for c in sep)
    n = uf('split%s_n' % nm, S, I)(a.t)
    f = uf('split%s' % nm, S, z3.ArraySort(I, S))(a.t)
    sh = TStr('no:' + sep)
    seg = SymSeg(eng, n, sh, lambda p, j: z3.Select(f, j))
    for x in seg.axioms():
        eng.assume(x)
    eng.assume(n >= 1)
    eng.assume((n == 1) == z3.Not(z3.Contains(a.t, z3.StringVal(zesc(sep)))))
    eng.assume(z3.Implies(n == 1, z3.Select(f, 0) == a.t))
    eng.inexact('split() of an arbitrary string')
    return [seg]


def split_ws(eng, s):
    """the fields of a text, separated by white space (white space around the text makes no difference)"""
    p = str_parts(s)[0]
    t = p.t if 'stripped' in p.tags else str_term(strip(eng, s))
    n = uf('wssplit_n', S, I)(t)
    f = uf('wssplit', S, z3.ArraySort(I, S))(t)
    seg = SymSeg(eng, n, TStr('nonempty', 'nows', 'stripped', 'no:\t', 'no:\n'), lambda p, j: z3.Select(f, j))
    for x in seg.axioms():
        eng.assume(x)
    eng.assume((n == 0) == (t == z3.StringVal('')))
    eng.inexact('split() of an arbitrary string')
    return [seg]


def join(eng, sep, lst):
    """sep.join(list)"""
    out = []
    first = True
    for s in lst.segs:
        if isinstance(s, El):
            if not is_str(s.v):
                raise Unsupported('join of %r' % (s.v,))
            if not first:
                out.append(sep)
            out.extend(str_parts(s.v))
            first = False
        else:
            if s.shape.k != 'str':
                raise Unsupported('join of a symbolic list of %s' % s.shape.k)
            if eng.decide(s.n > 0):
                if not first:
                    out.append(sep)
                out.append(Joined(sep, s))
                first = False
    return mkstr(out)


def fmt_value(eng, v, spec=''):
    from program import Ext
    if is_str(v):
        if spec:
            raise Unsupported('string format %r' % spec)
        return v
    if isinstance(v, bool) or v is None or isinstance(v, float):
        if spec:
            return format(v, spec)
        return str(v)
    if isinstance(v, int):
        return format(v, spec) if spec else str(v)
    if isinstance(v, SInt):
        if spec:
            raise Unsupported('format of a symbolic int')
        return int_to_str(eng, v)
    return eng.to_str(v)


def int_to_str(eng, v):
    f = uf('int2str', I, S)
    t = f(v.t)
    g = uf('str2int', S, I)
    eng.assume(g(t) == v.t)
    eng.assume(z3.Length(t) >= 1)
    return SStr([Atom(t, ['nonempty', 'stripped', 'nows', 'nohash', 'no:\t', 'no:\n', 'no:/', 'no:_', 'no:.', 'no:#', 'no:\r', 'digits'])])


def percent(eng, fmt, args):
    """fmt % args"""
    if not isinstance(fmt, str):
        # a number as the width: '%' n 'd' ...
        ps = fmt.parts
        if len(ps) == 3 and isinstance(ps[0], str) and isinstance(ps[2], str) and ps[0].endswith('%') and ps[2][0] == 'd' and \
                ps[0].count('%') == 1 and '%' not in ps[2] and isinstance(ps[1], Atom) and 'digits' in ps[1].tags and \
                'fmt:width' in eng.models:
            a = args[0] if isinstance(args, tuple) and len(args) == 1 else args
            if is_int(a):
                w = SInt(uf('str2int', S, I)(ps[1].t))
                return mkstr([ps[0][:-1], eng.models['fmt:width'](eng, 'd', w, a), ps[2][1:]])
        raise Unsupported('symbolic format string')
    if isinstance(args, PDict):
        named = args.d
        out = []
        pos = 0
        for m in re.finditer(r'%(?:\((\w+)\)s|(%))', fmt):
            out.append(fmt[pos:m.start()])
            out.extend(str_parts(fmt_value(eng, named[m.group(1)])) if m.group(1) else ['%'])
            pos = m.end()
        out.append(fmt[pos:])
        return mkstr(out)
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out = []
    pos = 0
    for m in re.finditer(r'%(-?\d*)(\.\d+)?([sdxr%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(3) == '%':
            out.append('%')
            continue
        if not args:
            raise eng.pyexc('TypeError', 'not enough arguments for format string')
        a = args.pop(0)
        if m.group(1) or m.group(2) or m.group(3) in 'xr':
            if isinstance(a, (int, str, float)):
                out.append(m.group(0) % a)
            else:
                out.extend(eng.fmt_special(m.group(0), a))
            continue
        if m.group(3) == 'd' and not is_num(a):
            raise eng.pyexc('TypeError', '%d format: a number is required')
        out.extend(str_parts(fmt_value(eng, a)))
    out.append(fmt[pos:])
    if '%' in re.sub(r'%(-?\d*)(\.\d+)?([sdxr%])', '', fmt):
        raise Unsupported('format %r' % fmt)
    if args:
        raise eng.pyexc('TypeError', 'not all arguments converted during string formatting')
    return mkstr(out)


def brace(eng, fmt, args, kw):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format string')
    out = []
    pos = 0
    auto = 0
    for m in re.finditer(r'\{\{|\}\}|\{(\w*)(?::([^{}]*))?\}', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        k = m.group(1)
        if k == '':
            k = auto
            auto += 1
        elif k.isdigit():
            k = int(k)
        try:
            v = args[k] if isinstance(k, int) else kw[k]
        except (IndexError, KeyError):
            raise eng.pyexc('IndexError', 'format')
        out.extend(str_parts(fmt_value(eng, v, m.group(2) or '')))
    out.append(fmt[pos:])
    return mkstr(out)


def slice_str(eng, s, a, b):
    """s[a:b], a and b concrete or None or symbolic non-negative"""
    if isinstance(s, str) and (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
        return s[a:b]
    parts = list(str_parts(s))
    if b is None and isinstance(a, int) and a >= 0:
        k = a
        while k and parts and isinstance(parts[0], str):
            n = min(k, len(parts[0]))
            parts[0:1] = [parts[0][n:]] if parts[0][n:] else []
            k -= n
        if k == 0:
            return mkstr(parts)
        if not parts:
            return ''
        base = mkstr(parts)
        t = str_term(base)
        tags = set()
        if len(parts) == 1 and isinstance(parts[0], Atom):
            tags = set(x for x in parts[0].tags if x.startswith('no:') or x == 'nows')
            if k == 1 and 'slash' in parts[0].tags:
                tags |= {'nonempty'} if 'slash+' in parts[0].tags else set()
        return SStr([Atom(z3.SubString(t, k, z3.Length(t)), tags)])
    if a in (None, 0) and isinstance(b, int) and b < 0:
        k = -b
        while k and parts and isinstance(parts[-1], str):
            n = min(k, len(parts[-1]))
            parts[-1:] = [parts[-1][:-n]] if parts[-1][:-n] else []
            k -= n
        if k == 0:
            return mkstr(parts)
        base = mkstr(parts)
        t = str_term(base)
        return SStr([Atom(z3.SubString(t, 0, z3.If(z3.Length(t) >= k, z3.Length(t) - k, 0)))])
    if a in (None, 0) and isinstance(b, int) and b >= 0:
        if parts and isinstance(parts[0], str) and len(parts[0]) >= b:
            return parts[0][:b]
        t = str_term(s)
        return SStr([Atom(z3.SubString(t, 0, b))])
    if b is None and isinstance(a, SInt):
        if not eng.entails(a.t >= 0):
            raise Unsupported('slice')
        # s[len(prefix):]
        ps = list(parts)
        off = z3.IntVal(0)
        while ps:
            if eng.entails(off == a.t):
                return mkstr(ps)
            p = ps.pop(0)
            off = off + (len(p) if isinstance(p, str) else z3.Length(p.t))
        t = str_term(s)
        return SStr([Atom(z3.SubString(t, a.t, z3.Length(t)))])
    raise Unsupported('string slice')
