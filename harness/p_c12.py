"""bounded stand-in for C12: Version against an independent ordering"""
import re
from lib import *
from multibag.constants import Version

FLD = ['0', '1', '2', '9', '10', '11', '99', '100', '01', '007', 'x', 'rc1', '', '3b', '12345678901234567890', '4', '5']


def gen_v(rng, like=None):
    kind = rng.choice(['s', 's', 't', 'Vs', 'Vt'])
    strs, nums, nstrs, nnums = hints()
    pool = list(FLD) + [str(abs(n)) for n in nnums] + [str(abs(n) + 1) for n in nnums] + \
        [s for s in nstrs if '.' not in s and not re.match(r'^\s*[-+]?[\d_\s]', s)]
    if like is not None and rng.random() < 0.7:
        f = list(like)
        k = rng.random()
        if k < 0.3 and f:
            f[rng.randrange(len(f))] = rng.choice(pool)
        elif k < 0.5:
            f.append(rng.choice(pool))
        elif k < 0.7 and len(f) > 1:
            f.pop()
    else:
        f = [rng.choice(pool) for i in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    if kind in ('t', 'Vt'):
        f = [x if re.match(r'^\d+$', x) else str(rng.randrange(12)) for x in f]
        if rng.random() < 0.05:
            f = []
    elif not f:
        f = ['0']
    return [kind, f]


def gen(rng):
    a = gen_v(rng)
    b = gen_v(rng, a[1])
    return {'vs': [a, b, gen_v(rng, b[1])]}


def fixed():
    for a, b in [(['s', ['0', '10']], ['s', ['0', '9']]), (['s', ['0', '4']], ['t', ['0', '4']]), (['Vt', ['1']], ['s', ['1', '0']]),
                 (['t', ['1', '2']], ['Vs', ['1', '2']]), (['s', ['x']], ['s', ['0']]), (['s', ['1', 'x']], ['s', ['1']])]:
        yield {'vs': [a, b, a]}


def make(v):
    k, f = v
    raw = tuple(int(x) for x in f) if k in ('t', 'Vt') else '.'.join(f)
    return Version(raw) if k[0] == 'V' else raw


def key(v):
    return [int(x) if re.match(r'^[0-9]+$', x) else -1 for x in v[1]]


OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def check(case, d):
    vs = case['vs']
    for a in vs:
        for b in vs:
            ka, kb = key(a), key(b)
            A = make(a)
            if not isinstance(A, Version):
                A = Version(A)
            B = make(b)
            for o in OPS:
                r = OPS[o](A, B)
                expect(r is OPS[o](ka, kb), "%s of fields %s %s %s (%s) is %r", a[0], ka, o, kb, b[0], r)
                if not isinstance(B, tuple):
                    # reflected: the other operand first
                    r = OPS[o](B, A)
                    expect(r is OPS[o](kb, ka), "(%s) %s %s %s is %r", b[0], kb, o, ka, r)
    for a in vs[:1]:
        if a[0] in ('s', 'Vs'):
            eq(str(Version('.'.join(a[1]))), '.'.join(a[1]), "str() of a Version")
        A = Version('.'.join(a[1]) if a[0] in ('s', 'Vs') else tuple(int(x) for x in a[1]))
        for bad in (None, 3, 1.5, [1, 2], {'a': 1}, b'1.0', True, object(), {1}):
            for what, f in [('Version(%r)' % (bad,), lambda: Version(bad))] + \
                           [('a Version %s %r' % (o, bad), (lambda g: lambda: g(A, bad))(OPS[o])) for o in OPS]:
                try:
                    r = f()
                except TypeError:
                    continue
                raise Bad("%s gives %r instead of a TypeError" % (what, r))
