"""bounded stand-in for C14: validators against an independent statement of the profile's rules"""
import os
from urllib.parse import urlparse
from lib import *
import p_c03, p_c08
from multibag.validate import base, HeadBagValidator, MemberBagValidator, validate_headbag, validate_memberbag
from multibag import amend

E, W, R = 1, 2, 4
FILES = ['data/a', 'data/b c', 'data/d/e', 'data/.hid', 'data/_u', 'data/d/f']


def gen(rng):
    kind = rng.choice(['head', 'head', 'head', 'head', 'member', 'member', 'output'])
    if kind == 'output':
        if rng.random() < 0.5:
            c = p_c03.gen(rng)
            c['head'] = None
            if any(k.startswith('Multibag-') for k, v in c['bag']['info']):
                c['bag']['info'] = []
            return {'kind': 'split', 'case': c}
        return {'kind': 'amend', 'case': p_c08.gen(rng)}
    name = rng.choice(['bag', 'my bag', 'b.1'] + ([' lead', 'trail ', 'a\tb', '\u00a0nb'] if kind == 'member' else []))
    ver = rng.choice(['0.4', '0.4', '0.4', '0.3', '0.2'])
    if ver == '0.2':
        name = name.replace(' ', '_') if kind == 'head' else name
    info = []

    def add(k, choices):
        for v in rng.choice(choices):
            info.append([k, v])
    add('Multibag-Version', [[ver]] * 8 + [[], [''], [ver, ver], ['0.1', ver]])
    good = rng.random() < 0.4
    if kind == 'head':
        add('Multibag-Head-Version', [['1.0']] * 6 + ([] if good else [[], [''], ['0.5', '1.0'], ['1.0', '']]))
    else:
        add('Multibag-Head-Version', [[]] * 6 + [['1.0']])
    add('Multibag-Reference', [['http://a.org/x']] * 5 + ([] if good else [[], [''], ['foo'], ['http:x'], ['//a/b'], ['x', 'http://a/b'],
                                                                          ['http://a/b', ''], ['http://[x'], ['urn:x:y']]))
    add('Multibag-Head-Deprecates', [[]] * 5 + [['0.9'], ['0.8', '0.9, other'], ['0.9,other']] +
        ([] if good else [[''], ['1.0'], ['0.9, ' + name], ['a,b,c'], ['0.9', '1.0'], ['0.9', 'x,y,z'], ['0.9', ''], ['0.5'], ['2,other ,']]))
    td = rng.choice([None] * 5 + [['multibag'], ['tags'], ['a/b']] +
                    ([] if good else [[''], ['multibag', 'multibag'], ['x', 'tags'], ['tags', ''], ['../x'], ['gone']]))
    if kind == 'member' and rng.random() < 0.6:
        td = None
    if td:
        for v in td:
            info.append(['Multibag-Tag-Directory', v])
    for k in ('Internal-Sender-Identifier', 'Internal-Sender-Description', 'Bag-Group-Identifier'):
        add(k, [['v']] * 4 + ([] if good else [[], [''], ['v', 'w'], ['', 'w'], ['w', '']]))
    files = rng.sample(FILES, rng.randrange(0, len(FILES) + 1))
    if ver == '0.2':
        files = [f for f in files if ' ' not in f]
    sep = ' ' if ver == '0.2' else '\t'
    mem = []
    for n in rng.sample(['m1', 'm2', 'm3'], rng.randrange(0, 4)) + [name]:
        u = rng.choice(['', '', 'http://x.org/y', 'urn:x', 'ark:/1'] + ([] if good else ['foo', 'foo/bar', 'http://[z']))
        mem.append(n + (sep + u if u else ''))
    if sep == '\t' and rng.random() < 0.3:
        mem[0] += ('' if '\t' in mem[0] else '\t') + '\textra\t# note'
    lu = [f + sep + rng.choice([name, name, 'm1']) for f in files] + ['data/other' + sep + 'm1']
    if not good:
        for i in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice(['notme', 'notlast', 'dup', 'dropm', 'lu1', 'lu3', 'lumiss', 'ludup', 'ludrop', 'nomem', 'nolu', 'blank', 'lead',
                            'corrupt', 'emptym', 'emptylu', 'luback', 'dupme'])
            if k == 'notme' and mem:
                mem = [m for m in mem if m.split(sep)[0] != name]
            elif k == 'notlast' and mem is not None:
                mem.append('zz')
            elif k == 'dup' and mem:
                mem.insert(0, mem[0])
            elif k == 'dupme' and mem is not None:
                mem.insert(0, name)
            elif k == 'lu1' and lu is not None:
                lu.append('data/only')
            elif k == 'lu3' and lu is not None:
                lu.append(sep.join(['data/x', 'm1', 'z']))
            elif k == 'lumiss' and lu is not None:
                lu.append('data/nonexistent' + sep + name)
            elif k == 'luback' and lu is not None:
                lu.append('../' + name + '2/x' + sep + name)
            elif k == 'ludup' and lu:
                lu.insert(rng.randrange(len(lu) + 1), lu[0])
            elif k == 'ludrop' and lu:
                lu.pop(0)
            elif k == 'nomem':
                mem = None
            elif k == 'nolu':
                lu = None
            elif k == 'blank' and mem is not None:
                mem.insert(1, '')
            elif k == 'lead' and mem and sep == '\t':
                mem[-1] = mem[-1] + '  '
            elif k == 'emptym':
                mem = []
            elif k == 'emptylu':
                lu = []
            elif k == 'corrupt':
                info.append(['X-Corrupt', '1'])
    return {'kind': kind, 'name': name, 'ver': ver, 'info': info, 'td': td, 'files': files, 'mem': mem, 'lu': lu,
            'agg': rng.choice([None, None, 'A: b\n', 'A: b\nno colon\n' if not good else 'A: b\n']), 'want': rng.choice([7, 7, 3, 1]),
            'mktd': rng.random() < (0.95 if kind == 'head' else 0.3), 'zip': False}


def absurl(u, netloc):
    try:
        p = urlparse(u)
    except ValueError:
        return False
    return bool(p.scheme and (p.netloc or not netloc))


def vals(info, k):
    return [v for n, v in info if n == k]


def oracle_head(c, bagdir):
    """the set of (label, severity) of the rules violated"""
    bad = set()
    info, name = c['info'], c['name']
    if vals(info, 'X-Corrupt') and c['files']:
        bad.add(('2-Bag', E))
    vs = vals(info, 'Multibag-Version')
    if not vs or (len(vs) == 1 and not vs[0]):
        bad.add(('3-Version', E))
    elif len(vs) > 1:
        bad.add(('3-Version', W))
    ver = vs[-1] if vs else None
    rs = vals(info, 'Multibag-Reference')
    if not rs or rs == ['']:
        bad.add(('3-Reference', R))
    elif not absurl(rs[-1], True):
        bad.add(('3-Reference-val', E))
    ts = vals(info, 'Multibag-Tag-Directory')
    td = (ts[-1] if ts else '') or 'multibag'
    isdir = os.path.isdir(os.path.join(bagdir, td)) and not td.startswith('..')
    if (ts and not ts[-1]) or not isdir or len(ts) > 1:
        bad.add(('3-Tag-Directory', E))
    hs = vals(info, 'Multibag-Head-Version')
    if not hs:
        bad.add(('3-Head-Version', E))
    else:
        if not hs[-1]:
            bad.add(('3-Head-Version_nonempty', W))
        if len(hs) > 1:
            bad.add(('3-Head-Version_single', W))
    ds = vals(info, 'Multibag-Head-Deprecates')
    if ds and not any(ds):
        bad.add(('3-Head-Deprecates_notempty', W))
    elif ds:
        hv = hs[-1] if hs else None
        for v in ds:
            p = [x.strip() for x in v.split(',')]
            if len(p) > 2:
                bad.add(('3-Head-Deprecates_format', E))
            if p[0] == hv or (len(p) > 1 and p[1] == name):
                bad.add(('3-Head-Deprecates_notselfdep', W))
    for k in ('Internal-Sender-Identifier', 'Internal-Sender-Description', 'Bag-Group-Identifier'):
        x = vals(info, k)
        if not x or not x[-1]:
            bad.add(('3-2', R))
        elif not all(x):
            bad.add(('3-2', E))
    if not isdir:
        return bad
    v2 = ver == '0.2'
    sp = (lambda l: l.split()) if v2 else (lambda l: [x.strip() for x in l.strip().split('\t')])
    if c['mem'] is None:
        bad.add(('4.0-1', E))
    else:
        rows = [sp(l) for l in c['mem'] if l.strip()]
        if v2 and any(len(r) > 2 for r in rows):
            bad.add(('4.1-1', E))
        if any(len(r) > 1 and r[1] and not absurl(r[1], False) for r in rows):
            bad.add(('4.1-2', E))
        if not any(r[0] == name for r in rows):
            bad.add(('4.1-3', E))
        if not rows or rows[-1][0] != name:
            bad.add(('4.1-4', E))
        if len(set(r[0] for r in rows)) != len(rows):
            bad.add(('4.1-5', W))
    if c['lu'] is None:
        bad.add(('4.0-2', E))
    else:
        rows = [sp(l) for l in c['lu'] if l.strip()]
        if any(len(r) != 2 for r in rows):
            bad.add(('4.2-1', E))
        if any(len(r) > 1 and r[1] == name and not (os.path.isfile(os.path.join(bagdir, r[0])) and not r[0].startswith('..')) for r in rows):
            bad.add(('4.2-2', E))
        if len(set(r[0] for r in rows)) != len(rows):
            bad.add(('4.2-3', W))
        listed = set(r[0] for r in rows)
        if any(f not in listed for f in c['files'] if os.path.basename(f)[0] not in '._'):
            bad.add(('4.2-4', R))
    if c['agg'] and ver not in ('0.2', '0.3') and 'no colon' in c['agg']:
        bad.add(('4.4-1', E))
    return bad


def oracle_member(c, bagdir):
    """(rules violated among those of validate_bagname(), those of validate_as_nonhead())"""
    info, name = c['info'], c['name']
    ver = (vals(info, 'Multibag-Version') or [None])[-1]
    a, b = set(), set()
    if ver != '0.2':
        if '\t' in name:
            a.add(('2.1a-name-TAB', E))
        if name != name.strip():
            a.add(('2.1b-name-wsp', E))
    if not vals(info, 'Multibag-Head-Version'):
        if vals(info, 'Multibag-Head-Deprecates'):
            b.add(('2-Head-Deprecates', W))
        ts = vals(info, 'Multibag-Tag-Directory')
        if ts:
            b.add(('2-Tag-Directory', W))
        for t in (ts if len(ts) > 1 else [x for x in ts if x] or ['multibag']):
            if os.path.exists(os.path.join(bagdir, t)) and not t.startswith('..'):
                b.add(('2-Tag-Directory', W))
    return ver, a, b


def failed(res, mask=7):
    return set((i.label, i.type) for i in res.failed(mask))


def write_case(c, d):
    ver = (vals(c['info'], 'Multibag-Version') or [None])[-1]
    td = (c['td'][-1] if c['td'] else '') or 'multibag'
    if td.startswith('..') or td == 'gone':
        td = 'multibag'
    fn = ('group-members.txt', 'group-directory.txt') if ver == '0.2' else ('member-bags.tsv', 'file-lookup.tsv')
    tags = []
    if c['mktd']:
        tags.append([td + '/note', 'x'])
        if c['mem'] is not None:
            tags.append([td + '/' + fn[0], ''.join(l + '\n' for l in c['mem'])])
        if c['lu'] is not None:
            tags.append([td + '/' + fn[1], ''.join(l + '\n' for l in c['lu'])])
        if c['agg']:
            tags.append([td + '/aggregation-info.txt', c['agg']])
    bag = write_bag(d, {'name': c['name'], 'files': [[f, [3, i]] for i, f in enumerate(c['files'])], 'info': c['info'], 'tags': tags})
    if vals(c['info'], 'X-Corrupt') and c['files']:
        write(os.path.join(bag, c['files'][0]), b'corrupted!')
    os.makedirs(os.path.join(d, 'x'))
    return bag


def check(case, d):
    if case['kind'] == 'split':
        bag, ms, out, got = p_c03.run_split(case['case'], d)
        for p in got[:-1]:
            r = MemberBagValidator(p).validate(7, base.ValidationResults('x', 7))
            eq(failed(r, E), set(), "errors in split member bag")
        for V in (HeadBagValidator, MemberBagValidator):
            r = V(got[-1]).validate(7, base.ValidationResults('x', 7))
            eq(failed(r, E), set(), "errors in the head bag of a split (%s)" % V.__name__)
        validate_headbag(got[-1], base.ERROR)
        return
    if case['kind'] == 'amend':
        c = case['case']
        old, adds, new = p_c08.write_all(c, d)
        if c['op'] == 'convert':
            amend.make_single_multibag(old, c['version'])
            head = old
        else:
            if c['head'] and c['head']['profile'] == '0.2':
                return
            p_c08.amend_all(c, p_c08.as_arg(c, old), adds, new)
            head = new
        r = HeadBagValidator(head).validate(7)
        allow = set()
        if any(m['uri'] and not absurl(m['uri'], False) for m in (c['head'] or {}).get('members', [])):
            allow.add(('4.1-2', E))
        eq(failed(r, E) - allow, set(), "errors in an amended or converted head bag")
        return
    bag = write_case(case, d)
    info = case['info']
    if not case['mktd']:
        case = dict(case, mem=None, lu=None, agg=None)
    if case['kind'] == 'head':
        bad = oracle_head(case, bag)
        w = case['want']
        r = HeadBagValidator(bag).validate(w)
        wanted = set(x for x in bad if x[1] & w)
        eq(failed(r, w), wanted, "rules reported as failed")
        expect(bool(HeadBagValidator(bag).is_valid(w)) == (not wanted), "is_valid(%d)", w)
        r0 = base.ValidationResults('x', 7)
        HeadBagValidator(bag).validate(7, r0)
        eq(failed(r0), bad, "rules reported as failed in given results")
        try:
            validate_headbag(bag, w)
        except base.MultibagValidationError:
            expect(wanted, "validate_headbag() raises for a valid bag")
        else:
            expect(not wanted, "validate_headbag() does not raise")
        return
    ver, a, b = oracle_member(case, bag)
    v = MemberBagValidator(bag)
    eq(failed(v.validate_bagname(7, None, ver)), a, "rules on names reported as failed")
    eq(failed(v.validate_as_nonhead(7, None, ver)), b, "rules on non-head bags reported as failed")
    top = set()
    if vals(info, 'X-Corrupt') and case['files']:
        top.add(('2-Bag', E))
    if not ver:
        top.add(('3-Version-for-member', R))
    full = top | ((a | b) if ver else set())
    r0 = base.ValidationResults('x', 7)
    v.validate(7, r0)
    eq(failed(r0), full, "rules reported as failed in given results")
    known = case.get('known')
    r = failed(v.validate(7))
    if known:
        eq(r, full, "rules reported by validate()")
    else:
        # known finding C14-1: without a given results object the rules in a and b are left out
        expect(top <= r <= full, "rules reported by validate(): %s, expected %s", sorted(r), sorted(full))
