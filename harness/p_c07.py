"""bounded stand-in for C07: split, then restore"""
import os
from lib import *
import p_c03
from multibag import restore, split
import bagit


def gen(rng):
    c = p_c03.gen(rng)
    c['head'] = None
    c['nopass'] = None
    c['strategy'] = rng.choice(['well', 'neigh', 'neigh', 'custom'])
    c['bag']['tags'] = [t for t in c['bag']['tags'] if t[0].split('/')[0] != 'multibag']
    if rng.random() < 0.2:
        c['bag']['info'].append([rng.choice(['Multibag-Source-Bag-Size', 'Multibag-Note', 'Multibag-Source-Internal-Sender-Identifier', 'X-Multibag-Version',
                                             'Multibag', 'multibag-version2', 'Multibag-Head-Versions']), rng.choice(['1 kB', 'x y'])])
    if rng.random() < 0.2:
        c['bag']['info'] += [['X-Twice', 'a'], ['X-Twice', 'a'], ['X-Twice', 'b']][:rng.choice([2, 3])]
    c['inplace'] = rng.random() < 0.25
    return c


def infoof(d):
    out = OrderedDict()
    if os.path.exists(os.path.join(d, 'bag-info.txt')):
        for k, v in bagit._load_tag_file(os.path.join(d, 'bag-info.txt'), encoding='utf-8').items():
            out[k] = v if isinstance(v, list) else [v]
    return out


def check(case, d):
    bag, ms, out, got = p_c03.run_split(case, d)
    if case['inplace']:
        dest = got[-1]
        restore.restore_bag(got[-1], None, out)
    else:
        dest = os.path.join(d, 'restored')
        restore.restore_bag(got[-1], dest, out)
    a, b = tree(bag), tree(dest)
    skip = lambda t: dict((p, c) for p, c in t.items()
                          if not re.match(r'^(bag-info\.txt|(tag)?manifest-\w+\.txt)$', p))
    a2, b2 = skip(a), skip(b)
    eq(sorted(b2), sorted(a2), "files of the restored bag")
    for p in a2:
        expect(a2[p] == b2[p], "content of %s differs after the round trip", p)
    eq(sorted(dirs_of(dest)), sorted(dirs_of(bag)), "directories of the restored bag")
    ma, mb = manifests(bag), manifests(dest)
    for alg in set(ma) | set(mb):
        eq(dict(mb.get(alg, {})), dict(ma.get(alg, {})), "manifest-" + alg)
    ia, ib = infoof(bag), infoof(dest)
    for k in set(ia) | set(ib):
        if k in ('Payload-Oxum', 'Bag-Size'):
            continue
        eq(ib.get(k), ia.get(k), "bag-info " + k)
    pf = [p for p in a if p.startswith('data/')]
    eq(ib.get('Payload-Oxum'), ['%d.%d' % (sum(len(a[p]) for p in pf), len(pf))], "Payload-Oxum")
    check_bag(dest, 'restored bag')
    loc_validate(dest, 'restored bag')
