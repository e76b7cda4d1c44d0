"""generation of aggregations of several member bags, and the oracle for restoring them"""
import os
from lib import *


def gen_agg(rng, fetches=True, deletes=True):
    """several bags with overlapping contents, listed by the last one"""
    pool = gen_paths(rng, rng.choice([2, 4, 6, 8]))
    tpool = [p for p in gen_paths(rng, 3, top='', depth=1)
             if p.split('/')[0] not in ('data', 'multibag', 'mbt') and not SPECIAL.match(p.split('/')[0])]
    if rng.random() < 0.35:
        tpool += [p for p in rng.sample(NEAR, 2) if not any(q == p or q.startswith(p + '/') or p.startswith(q + '/') for q in tpool)]
    k = rng.choice([1, 2, 2, 3, 3, 4])
    bags = []
    tagdir = rng.choice([None, None, None, 'mbt', 'meta/mb'])
    gone = []
    if deletes and rng.random() < 0.6:
        gone = rng.sample(pool, rng.randrange(0, min(3, len(pool)) + 1))
        if rng.random() < 0.4:
            d = os.path.dirname(rng.choice(pool))
            if d and d != 'data':
                gone.append(d)
        if rng.random() < 0.2 and tpool:
            gone.append(rng.choice(tpool))
        if rng.random() < 0.2:
            gone.append('data/never-there')
    shared = rng.sample(ALGS, rng.choice([1, 1, 2]))
    for i in range(k):
        fs = rng.sample(pool, rng.randrange(0 if k > 1 else 1, len(pool) + 1))
        b = {'name': rng.choice(['m%d', 'samp_%d.mbag', 'bag %d']) % (i + 1),
             'files': [[p, [num(rng, 40), rng.randrange(1000)]] for p in fs],
             'tags': [[p, [num(rng, 20), rng.randrange(1000)]] for p in rng.sample(tpool, rng.randrange(0, len(tpool) + 1))],
             'dirs': [d for d in ['data/emptyd', 'data/e/f', 'metae/x'] if rng.random() < 0.15 and
                      not any(p == d or d.startswith(p + '/') or p.startswith(d + '/') for p in pool + tpool)],
             'algs': shared if rng.random() < 0.7 else rng.sample(ALGS, rng.choice([1, 2])),
             'info': gen_info(rng), 'version': '0.97', 'oxum': True, 'two': rng.random() < 0.2}
        b['talgs'] = rng.choice([[], b['algs']])
        b['fetch'] = []
        if fetches and rng.random() < 0.4:
            for p in rng.sample(['data/ext/u1', 'data/ext/u 2', 'data/u3'], rng.randrange(1, 4)):
                if not any(q == p or q.startswith(p + '/') or p.startswith(q + '/') for q in pool):
                    b['fetch'].append('http://x.org/%d%s 12 %s' % (i, rng.choice(['', '?q=a b'.replace(' ', '+')]), p))
        # checksums for the files to be fetched
        b['absent'] = [[a, digest(a, (l + str(i)).encode()), l.split(None, 2)[2]] for l in b['fetch'] for a in b['algs']]
        bags.append(b)
    if gone and rng.random() < 0.3:
        gone = [g for g in gone]
        fp = [l.split(None, 2)[2] for b in bags for l in b['fetch']]
        if fp:
            gone.append(rng.choice(fp + ['data/ext']))
    agginfo = None
    if rng.random() < 0.5:
        agginfo = [['Contact-Name', 'A'], ['X-Agg', 'v1'], ['X-Agg', 'v2'], ['External-Identifier', 'id:1']]
    return {'bags': bags, 'deleted': sorted(set(gone)), 'tagdir': tagdir, 'agginfo': agginfo,
            'headlast': rng.random() < 0.95}


def is_gone(p, gone):
    return any(p == g or p.startswith(g + '/') for g in gone)


def write_agg(root, agg):
    """write the bags of the aggregation below root; returns their directories, the head bag's last"""
    td = agg['tagdir'] or 'multibag'
    out = []
    names = [b['name'] for b in agg['bags']]
    for i, b in enumerate(agg['bags']):
        b = json.loads(json.dumps(b))
        if i == len(names) - 1:
            members = names
            lu = OrderedDict()
            for bb in agg['bags']:
                for p, c in bb['files']:
                    if not is_gone(p, agg['deleted']):
                        lu[p] = bb['name']
            b['tags'].append([td + '/member-bags.tsv', ''.join(n + '\n' for n in members)])
            b['tags'].append([td + '/file-lookup.tsv', ''.join('%s\t%s\n' % x for x in lu.items())])
            if agg['deleted']:
                b['tags'].append([td + '/deleted.txt', ''.join(n + '\n' for n in agg['deleted'])])
            if agg['agginfo'] is not None:
                b['tags'].append([td + '/aggregation-info.txt', ''.join('%s: %s\n' % tuple(x) for x in agg['agginfo'])])
            b['info'] += [['Multibag-Version', '0.4'], ['Multibag-Head-Version', '2'],
                          ['Multibag-Head-Deprecates', '1']]
            if agg['tagdir']:
                b['info'].append(['Multibag-Tag-Directory', agg['tagdir']])
        out.append(write_bag(root, b))
    return out


def expected_restore(dirs, agg):
    """what the restored bag has to hold, computed from the bags on disk: (files, dirs, checksums, fetch)"""
    td = agg['tagdir'] or 'multibag'
    gone = agg['deleted']
    files, edirs, sums, fetch = {}, set(), {}, OrderedDict()
    src = {}
    for i, d in enumerate(dirs):
        t = tree(d)
        mans = dict((('manifest', a), m) for a, m in manifests(d).items())
        for p, c in t.items():
            if SPECIAL.match(p) or is_gone(p, gone):
                continue
            if i == len(dirs) - 1 and (p == td or p.startswith(td + '/')):
                continue
            files[p] = c
            src[p] = i
        for x in dirs_of(d):
            if not is_gone(x, gone) and not (i == len(dirs) - 1 and (x == td or x.startswith(td + '/'))):
                edirs.add(x)
        if 'fetch.txt' in t:
            for l in t['fetch.txt'].decode('utf-8').split('\n'):
                if len(l.split(None, 2)) > 2:
                    fetch[l.split(None, 2)[2]] = l
    fetch = OrderedDict((p, l) for p, l in fetch.items() if not is_gone(p, gone))
    for p, i in src.items():
        if p.startswith('data/'):
            for a, m in manifests(dirs[i]).items():
                if p in m:
                    sums.setdefault(a, {})[p] = m[p]
    todo = {}
    for d in dirs:                             # files that are only listed for fetching: the last bag listing them
        mine = {}
        for a, m in manifests(d).items():
            for p in m:
                if p not in files and not is_gone(p, gone):
                    mine.setdefault(p, {})[a] = m[p]
        todo.update(mine)
    for p in todo:
        for a in todo[p]:
            sums.setdefault(a, {})[p] = todo[p][a]
    return files, edirs, sums, fetch


def check_restored(res, exp, what='restored bag', infos=None):
    files, edirs, sums, fetch = exp
    t = tree(res)
    have = dict((p, c) for p, c in t.items() if not SPECIAL.match(p))
    eq(sorted(have), sorted(files), what + ": files")
    for p in files:
        expect(have[p] == files[p], "%s: wrong content of %s", what, p)
    anc = set(edirs) | {'data'}
    for p in list(files):
        p = os.path.dirname(p)
        while p:
            anc.add(p)
            p = os.path.dirname(p)
    eq(sorted(dirs_of(res) - anc), [], what + ": unexpected directories")
    eq(sorted(edirs - dirs_of(res)), [], what + ": missing directories")
    mans = manifests(res)
    for a in set(sums) | set(mans):
        w = sums.get(a, {})
        g = mans.get(a, {})
        eq(sorted(g), sorted(w), "%s: paths in manifest-%s" % (what, a))
        for p in w:
            if w[p] is not None:
                eq(g[p], w[p], "%s: manifest-%s checksum of %s" % (what, a, p))
    if fetch:
        lines = [l for l in t.get('fetch.txt', b'').decode('utf-8').split('\n') if l.strip()]
        eq(sorted(lines), sorted(fetch.values()), what + ": fetch.txt")
    else:
        expect('fetch.txt' not in t, "%s: has a fetch.txt", what)
