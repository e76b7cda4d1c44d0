"""Models of what lies outside /repo.  Every one of these is an assumption; a run reports those it used."""
import re
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
from core import *
from program import *
import strs
from strs import uf

I, S, B, R = z3.IntSort(), z3.StringSort(), z3.BoolSort(), z3.RealSort()
M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


# ---------------------------------------------------------------- re
@model('re.compile')
def re_compile(e, a, kw):
    if isinstance(a[0], Regex):
        return a[0]
    if not isinstance(a[0], str):
        raise Unsupported('symbolic regular expression')
    return Regex(a[0])


ALLCH = lambda: z3.AllChar(z3.ReSort(S))
FULL = lambda: z3.Full(z3.ReSort(S))


def lit_re(s):
    return z3.Re(z3.StringVal(zesc(s)))


def char_class(items, flags):
    alts = []
    negate = False
    for op, av in items:
        op = str(op)
        if op == 'NEGATE':
            negate = True
        elif op == 'LITERAL':
            alts.append(lit_re(chr(av)))
        elif op == 'RANGE':
            alts.append(z3.Range(zesc(chr(av[0])), zesc(chr(av[1]))))
        elif op == 'CATEGORY':
            alts.append(category(str(av), flags))
        else:
            raise Unsupported('regular expression class %s' % op)
    r = alts[0] if len(alts) == 1 else z3.Union(*alts)
    if negate:
        r = z3.Intersect(ALLCH(), z3.Complement(r))
    return r


def category(c, flags):
    flags.append(c)
    neg = 'NOT_' in c
    c = c.replace('NOT_', '')
    if c == 'CATEGORY_DIGIT':
        r = z3.Range('0', '9')
    elif c == 'CATEGORY_SPACE':
        r = z3.Union(*[lit_re(x) for x in ' \t\n\r\x0b\x0c'])
    elif c == 'CATEGORY_WORD':
        r = z3.Union(z3.Range('0', '9'), z3.Range('a', 'z'), z3.Range('A', 'Z'), lit_re('_'))
    else:
        raise Unsupported('regular expression ' + c)
    return z3.Intersect(ALLCH(), z3.Complement(r)) if neg else r


def to_re(tree, flags):
    """(z3 regex, anchored at end)"""
    parts = []
    for op, av in tree:
        op = str(op)
        if op == 'LITERAL':
            parts.append(lit_re(chr(av)))
        elif op == 'NOT_LITERAL':
            parts.append(z3.Intersect(ALLCH(), z3.Complement(lit_re(chr(av)))))
        elif op == 'ANY':
            parts.append(z3.Intersect(ALLCH(), z3.Complement(lit_re('\n'))))
        elif op == 'IN':
            parts.append(char_class(av, flags))
        elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            r = to_re(sub, flags)
            if str(hi) == 'MAXREPEAT':
                parts.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            elif (lo, hi) == (0, 1):
                parts.append(z3.Option(r))
            else:
                parts.append(z3.Loop(r, lo, hi))
        elif op == 'SUBPATTERN':
            parts.append(to_re(av[-1], flags))
        elif op == 'BRANCH':
            parts.append(z3.Union(*[to_re(x, flags) for x in av[1]]))
        elif op == 'AT':
            if 'END' in str(av):
                flags.append('END')
            elif 'BEGINNING' not in str(av):
                raise Unsupported('regular expression anchor')
        else:
            raise Unsupported('regular expression %s' % op)
    if not parts:
        return lit_re('')
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def regex_term(e, pat, s, mode):
    """z3 Bool: pat matches s.  mode: match | search | fullmatch"""
    tree = list(sre.parse(pat))
    end = bool(tree) and str(tree[-1][0]) == 'AT' and 'END' in str(tree[-1][1])
    begin = bool(tree) and str(tree[0][0]) == 'AT' and 'BEGINNING' in str(tree[0][1])
    if end:
        tree = tree[:-1]
    if begin:
        tree = tree[1:]
    flags = []
    r = to_re(tree, flags)
    if 'END' in flags:
        raise Unsupported('regular expression anchor')
    if flags:
        e.used_models.add('(regular expressions: \\w, \\s, \\d over ASCII)')
    if mode == 'search' and not begin:
        r = z3.Concat(FULL(), r)
    if end:
        r = z3.Union(r, z3.Concat(r, lit_re('\n')))
    elif mode != 'fullmatch':
        r = z3.Concat(r, FULL())
    return z3.InRe(str_term(s), r)


def py_match(pat, s, mode):
    return getattr(re, mode)(pat, s)


def mk_match(e, pat, s, mode):
    if isinstance(s, str):
        m = py_match(pat, s, mode)
        if m is None:
            return None
        o = e.newobj(Obj(Ext('re.Match')))
        o.m = m
        o.attrs['__groups__'] = tuple([m.group(0)] + list(m.groups()))
        return o
    if not is_str(s):
        raise e.pyexc('TypeError', 'expected string')
    fast = rope_match(e, pat, s, mode)
    if fast is not None:
        if fast is False:
            return None
        return e.newobj(Obj(Ext('re.Match')))
    if e.decide(regex_term(e, pat, s, mode)):
        return e.newobj(Obj(Ext('re.Match')))
    return None


def rope_match(e, pat, s, mode):
    """decide without the solver where the literal beginning of the rope settles it"""
    return None


for _m in ('match', 'search', 'fullmatch'):
    M['re.Pattern.' + _m] = lambda e, a, kw, _m=_m: mk_match(e, a[0].pattern, a[1], _m)
    M['re.' + _m] = lambda e, a, kw, _m=_m: mk_match(e, a[0].pattern if isinstance(a[0], Regex) else a[0], a[1], _m)


@model('re.Match.group')
def re_group(e, a, kw):
    g = a[0].attrs.get('__groups__')
    k = a[1] if len(a) > 1 else 0
    if g is None:
        e.inexact('group of a match')
        return SStr([Atom(z3.Const(fresh_name('group'), S))])
    return g[k]


def charclass(pat):
    """the characters of a pattern of the form c, c+, [cd], [cd]+, or None"""
    tree = list(sre.parse(pat))
    if len(tree) != 1:
        return None
    op, av = tree[0]
    if str(op) == 'MAX_REPEAT':
        if av[0] < 1 or len(av[2]) != 1:
            return None
        op, av = list(av[2])[0]
    if str(op) == 'LITERAL':
        return chr(av)
    if str(op) == 'IN' and all(str(o) == 'LITERAL' for o, _ in av):
        return ''.join(chr(v) for _, v in av)
    if str(op) == 'IN' and len(av) == 1 and 'CATEGORY_SPACE' in str(av[0][1]):
        return 'ws'
    return None


def rope_resplit(pat, s, mx):
    """split where the separators cannot occur in the opaque pieces"""
    cs = charclass(pat)
    if cs is None:
        return None
    atoms = {}
    text = ''
    for p in s.parts:
        if isinstance(p, str):
            text += p
        elif isinstance(p, Atom) and ('nows' in p.tags if cs == 'ws' else all(('no:' + c) in p.tags or (c in strs.WS and 'nows' in p.tags)
                                                                              for c in cs)):
            c = chr(0xf0000 + len(atoms))
            atoms[c] = p
            text += c
        else:
            return None
    return [mkstr([atoms.get(c, c) for c in x]) for x in re.split(pat, text, mx)]


@model('re.Pattern.split', 're.split')
def re_split(e, a, kw):
    pat = a[0].pattern if isinstance(a[0], Regex) else a[0]
    s = a[1]
    mx = a[2] if len(a) > 2 else kw.get('maxsplit', 0)
    if isinstance(s, str):
        return e.mk(re.split(pat, s, mx))
    h = e.models.get('re.split:' + pat)
    if h:
        return h(e, s, mx)
    if pat == '/' and not mx:
        return e.newobj(PList(strs.split(e, s, '/')))
    r = rope_resplit(pat, s, mx)
    if r is not None:
        return e.mk(r)
    if pat == '/' and mx == 1:
        return e.split_max(s, '/', 1)
    raise Unsupported('re.split of a symbolic string with %r' % pat)


@model('re.Pattern.sub', 're.sub')
def re_sub(e, a, kw):
    pat = a[0].pattern if isinstance(a[0], Regex) else a[0]
    rep, s = a[1], a[2]
    if isinstance(s, str) and isinstance(rep, str):
        return re.sub(pat, rep, s)
    if pat == rep and re.escape(pat) == pat:
        return s
    h = e.models.get('re.sub:' + pat)
    if h:
        return h(e, rep, s)
    if pat == '/' and isinstance(rep, str) and strs.contains(e, s, '/') is False:
        return s
    e.inexact('re.sub')
    return SStr([Atom(uf('resub', S, S, S, S)(z3.StringVal(zesc(pat)), str_term(rep), str_term(s)))])


# ---------------------------------------------------------------- os.path, pure
def join2(e, a, b):
    if isinstance(a, str) and isinstance(b, str):
        import posixpath
        return posixpath.join(a, b)
    if e.truthy(strs.startswith(e, b, '/')):
        return b
    if not e.truthy(a):
        return b
    if e.truthy(strs.endswith(e, a, '/')):
        return strs.concat(a, b)
    return strs.concat(strs.concat(a, '/'), b)


@model('os.path.join')
def p_join(e, a, kw):
    r = a[0]
    for x in a:
        if not is_str(x):
            raise e.pyexc('TypeError', 'expected str')
    for x in a[1:]:
        r = join2(e, r, x)
    return r


@model('os.path.basename')
def p_basename(e, a, kw):
    s = a[0]
    if isinstance(s, str):
        import posixpath
        return posixpath.basename(s)
    l = e.rsplit(s, ['/', 1])
    c = l.concrete()
    return c[-1]


@model('os.path.dirname')
def p_dirname(e, a, kw):
    s = a[0]
    if isinstance(s, str):
        import posixpath
        return posixpath.dirname(s)
    l = e.rsplit(s, ['/', 1])
    c = l.concrete()
    if len(c) == 1:
        return ''
    h = c[0]
    ps = str_parts(h)
    if ps and isinstance(ps[-1], Atom) and 'nonempty' in ps[-1].tags and 'noendslash' in ps[-1].tags:
        return h
    if ps and isinstance(ps[-1], str) and not ps[-1].endswith('/'):
        return h
    # a head of slashes only stays as it is; otherwise trailing slashes go
    if not e.truthy(h):
        return '/'
    if e.truthy(strs.endswith(e, h, '/')):
        e.inexact('dirname')
        return SStr([Atom(uf('rstripslash', S, S)(str_term(h)))])
    return h


@model('os.path.split')
def p_split(e, a, kw):
    return (p_dirname(e, a, kw), p_basename(e, a, kw))


@model('os.path.splitext')
def p_splitext(e, a, kw):
    s = a[0]
    if isinstance(s, str):
        import posixpath
        return posixpath.splitext(s)
    e.inexact('splitext')
    x, y = uf('ext_root', S, S)(str_term(s)), uf('ext_ext', S, S)(str_term(s))
    e.assume(str_term(s) == z3.Concat(x, y))
    return (SStr([Atom(x)]), SStr([Atom(y)]))


def same(e, a, kw):
    return a[0]


for n in ('normpath', 'abspath', 'realpath', 'expanduser'):
    def f(e, a, kw, n=n):
        if isinstance(a[0], str) and n == 'normpath':
            import posixpath
            return posixpath.normpath(a[0])
        e.inexact('os.path.' + n)
        return SStr([Atom(uf('os_' + n, S, S)(str_term(a[0])), ['nonempty'])])
    M['os.path.' + n] = f


@model('os.path.isabs')
def p_isabs(e, a, kw):
    return strs.startswith(e, a[0], '/')


# ---------------------------------------------------------------- math, copy, collections, functools
@model('math.floor')
def m_floor(e, a, kw):
    import math
    if isinstance(a[0], (int, float)):
        return math.floor(a[0])
    t = num_term(a[0])
    return wrap_int(z3.ToInt(t)) if z3.is_real(t) else a[0]


@model('math.ceil')
def m_ceil(e, a, kw):
    import math
    if isinstance(a[0], (int, float)):
        return math.ceil(a[0])
    t = num_term(a[0])
    return wrap_int(-z3.ToInt(-t)) if z3.is_real(t) else a[0]


@model('math.fabs')
def m_fabs(e, a, kw):
    import math
    if isinstance(a[0], (int, float)):
        return math.fabs(a[0])
    t = num_term(a[0])
    t = z3.ToReal(t) if z3.is_int(t) else t
    return wrap_real(z3.If(t >= 0, t, -t))


@model('math.copysign')
def m_copysign(e, a, kw):
    t, s = num_term(a[0]), num_term(a[1])
    t = z3.ToReal(t) if z3.is_int(t) else t
    m = z3.If(t >= 0, t, -t)
    return wrap_real(z3.If(s >= 0, m, -m))


LN = z3.Function('ln', R, R)


@model('math.log')
def m_log(e, a, kw):
    import math
    if isinstance(a[0], (int, float)) and all(isinstance(x, (int, float)) for x in a):
        return math.log(*a)
    t = num_term(a[0])
    t = z3.ToReal(t) if z3.is_int(t) else t
    if e.decide(t <= 0):
        raise e.pyexc('ValueError', 'math domain error')
    e.inexact('logarithm')
    r = LN(t)
    # ln is increasing with ln 1 = 0 and ln 2 > 0.69; the lemma needed is stated by the contract
    e.assume(z3.Implies(t >= 1, r >= 0))
    if len(a) > 1:
        b = num_term(a[1])
        b = z3.ToReal(b) if z3.is_int(b) else b
        return wrap_real(uf('log2', R, R, R)(t, b))
    return wrap_real(r)


def deep(e, v, memo):
    if isinstance(v, PList):
        if v.uid in memo:
            return memo[v.uid]
        r = PList()
        r.kind = v.kind
        memo[v.uid] = r
        for s in v.segs:
            if isinstance(s, El):
                r.segs.append(El(deep(e, s.v, memo)))
            else:
                n = SymSeg(e, s.n, s.shape, s.sel, dict(s.meas), [t for t in s.tags if t != 'shared'])
                n.facts = s.facts
                r.segs.append(n)
        return e.newobj(r)
    if isinstance(v, PDict):
        if v.uid in memo:
            return memo[v.uid]
        r = PDict()
        r.origin = None
        memo[v.uid] = r
        for k, x in v.d.items():
            r.d[k] = deep(e, x, memo)
        return e.newobj(r)
    if isinstance(v, SMap):
        return e.newobj(v.clone())
    if isinstance(v, PSet):
        return e.newobj(PSet(v.has, v.tags))
    if isinstance(v, Obj):
        if v.uid in memo:
            return memo[v.uid]
        r = Obj(v.cls)
        memo[v.uid] = r
        for k, x in v.attrs.items():
            r.attrs[k] = deep(e, x, memo)
        return e.newobj(r)
    if isinstance(v, tuple):
        return tuple(deep(e, x, memo) for x in v)
    if isinstance(v, Iter):
        raise Unsupported('deepcopy of an iterator')
    return v


@model('copy.deepcopy')
def c_deepcopy(e, a, kw):
    return deep(e, a[0], {})


@model('copy.copy')
def c_copy(e, a, kw):
    v = a[0]
    if isinstance(v, PList):
        return e.newobj(PList(e.copy_segs(v)))
    if isinstance(v, PDict):
        r = e.newobj(PDict(dict(v.d)))
        r.origin = None
        return r
    raise Unsupported('copy of %r' % (v,))


@model('collections.OrderedDict')
def odict(e, a, kw):
    r = e.b_dict(a, kw)
    return r


@model('collections.defaultdict')
def ddict(e, a, kw):
    d = e.newobj(PDict())
    d.origin = None
    if a and a[0] is not None:
        f = a[0]
        d.default = lambda e2: e2.call(f, [], {})
    return d


class CmpKey(object):
    def __init__(self, f):
        self.f = f


@model('functools.cmp_to_key')
def cmp_to_key(e, a, kw):
    return CmpKey(a[0])


@model('abc.abstractmethod', 'functools.wraps')
def ident(e, a, kw):
    return a[0]


def nothing(e, a, kw):
    return None


for n in ('logging.getLogger',):
    M[n] = lambda e, a, kw: e.newobj(Obj(Ext('logging.Logger')))
for n in ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'):
    M['logging.Logger.' + n] = nothing
M['warnings.warn'] = nothing


@model('collections.namedtuple')
def namedtuple(e, a, kw):
    fields = a[1].replace(',', ' ').split() if isinstance(a[1], str) else list(e.to_list(a[1]).concrete())

    def init(e2, args, kwargs):
        o = args[0]
        vals = list(args[1:])
        for f in fields:
            o.attrs[f] = vals.pop(0) if vals else kwargs[f]
        return None
    return PClass(a[0], [Builtin('object')], {'__init__': Native(init, a[0])}, None)


M['abc.ABCMeta'] = nothing
M['bagit._'] = lambda e, a, kw: a[0]           # gettext: the text of messages does not matter


def install(e):
    import fsmodel
    e.models.update(M)


def opaque_paths(e):
    """os.path.join, dirname, basename as unknown functions of their arguments: for contracts where only the identity of a path matters"""
    def join(e, a, kw):
        r = a[0]
        for x in a:
            if not is_str(x):
                raise e.pyexc('TypeError', 'expected str')
        for x in a[1:]:
            r = SStr([Atom(uf('pjoin', S, S, S)(str_term(r), str_term(x)), ['nonempty'])])
        return r
    e.models['os.path.join'] = join
    e.models['os.path.dirname'] = lambda e, a, kw: SStr([Atom(uf('pdirname', S, S)(str_term(a[0])))])
    e.models['os.path.basename'] = lambda e, a, kw: SStr([Atom(uf('pbasename', S, S)(str_term(a[0])))])
