"""bounded stand-in for C06: restoring an aggregation"""
import os
from lib import *
from agg import *
from multibag import restore
from multibag.access.multibag import open_headbag


def gen(rng):
    return {'agg': gen_agg(rng), 'mode': rng.choice(['dest', 'dest', 'dest', 'inplace', 'explicit', 'headobj', 'fetcher', 'zip', 'compdir',
                                                       'rel', 'inplace2', 'raw', 'pieces']),
            'members': []}


def fixed():
    f = lambda p, n=3: [p, [n, 1]]
    b = lambda name, files, **kw: dict({'name': name, 'files': files, 'tags': [], 'dirs': [], 'algs': ['md5'],
                                        'talgs': [], 'info': [], 'version': '0.97', 'oxum': True, 'fetch': [],
                                        'absent': []}, **kw)
    for mode in ('dest', 'inplace', 'raw', 'pieces', 'inplace2', 'rel'):
        yield {'agg': {'bags': [b('m1', [f('data/x', 1), f('data/q')], algs=['sha256']), b('m2', [f('data/x', 2)])],
                       'deleted': [], 'tagdir': None, 'agginfo': None, 'headlast': True}, 'mode': mode}
        yield {'agg': {'bags': [b('m1', [f('data/x', 1), f('data/q')]), b('m2', [f('data/x', 2), f('data/y')])],
                       'deleted': ['data/y'], 'tagdir': None, 'agginfo': None, 'headlast': True}, 'mode': mode}
        yield {'agg': {'bags': [b('m1', [f('data/d/x', 1), f('data/dd/q')]), b('m2', [f('data/d/y', 2), f('data/y')])],
                       'deleted': ['data/d'], 'tagdir': 'mbt', 'agginfo': None, 'headlast': True}, 'mode': mode}


def check(case, d):
    agg = case['agg']
    comp = os.path.join(d, 'bags')
    os.mkdir(comp)
    dirs = write_agg(comp, agg)
    head = dirs[-1]
    exp = expected_restore(dirs, agg)
    headinfo = info_multi(os.path.join(head, 'bag-info.txt'))
    dest = os.path.join(d, 'restored')
    mode = case['mode']
    before = snapshot(comp)
    if mode == 'dest':
        r = restore.restore_bag(head, dest, comp)
    elif mode == 'explicit':
        r = restore.restore_bag(head, dest)
    elif mode == 'headobj':
        r = restore.restore_bag(open_headbag(head, True), dest)
    elif mode == 'inplace':
        dest = head
        r = restore.restore_bag(head)
    elif mode in ('zip', 'fetcher', 'compdir'):
        other = os.path.join(d, 'other')
        os.mkdir(other)
        for x in dirs[:-1]:
            if mode == 'compdir':
                os.rename(x, os.path.join(other, os.path.basename(x)))
            else:
                zip_bag(x, os.path.join(other, os.path.basename(x) + '.zip'))
                shutil.rmtree(x)
        if mode == 'fetcher':
            def fetcher(name, into):
                shutil.copy(os.path.join(other, name + '.zip'), into)
                return os.path.join(into, name + '.zip')
            r = restore.restore_bag(head, dest, None, fetcher)
        else:
            r = restore.restore_bag(head, dest, other)
    elif mode == 'rel':
        os.chdir(comp)
        r = restore.restore_bag(os.path.basename(head), '../restored')
        os.chdir(d)
        eq(r.path, dest, "path of the bag returned")
    elif mode == 'inplace2':
        dest = head
        r = restore.restore_bag(head, head)
    elif mode == 'raw':
        r = restore.BagRestorer(head, dest, comp)
        r.restore(False, False)
        check_raw(dest, dirs, agg, exp)
        expect(snapshot(comp) == before, "restoring changed its inputs: %s", diffsnap(before, snapshot(comp)))
        return
    elif mode == 'pieces':
        check_pieces(head, dest, dirs, agg, exp)
        expect(snapshot(comp) == before, "restoring changed its inputs: %s", diffsnap(before, snapshot(comp)))
        return
    eq(os.path.abspath(r.path), dest, "path of the bag returned")
    check_restored(dest, exp)
    t = tree(dest)
    info = info_multi(os.path.join(dest, 'bag-info.txt'))
    for k in 'Multibag-Version Multibag-Head-Version Multibag-Head-Deprecates Multibag-Tag-Directory'.split():
        expect(k not in info, "restored bag has %s", k)
    pf = [p for p in t if p.startswith('data/')]
    eq(info.get('Payload-Oxum'), ['%d.%d' % (sum(len(t[p]) for p in pf), len(pf))], "Payload-Oxum")
    if agg['agginfo'] is not None:
        want = OrderedDict()
        for k, v in agg['agginfo']:
            want.setdefault(k, []).append(v)
    else:
        want = OrderedDict((k, v) for k, v in headinfo.items() if not k.startswith('Multibag-'))
    for k in set(want) | set(info):
        if k in ('Payload-Oxum', 'Bag-Size'):
            continue
        eq([x.strip() for x in info.get(k, [])], [x.strip() for x in want.get(k, [])], "bag-info " + k)
    if not exp[3]:
        check_bag(dest, 'restored bag')
        loc_validate(dest, 'restored bag')
    if mode in ('dest', 'explicit', 'headobj'):
        expect(snapshot(comp) == before, "restoring changed its inputs: %s", diffsnap(before, snapshot(comp)))


def check_raw(dest, dirs, agg, exp):
    """restored with the tag directory kept and the sizes as they were"""
    files, edirs, sums, fetch = exp
    td = agg['tagdir'] or 'multibag'
    t = tree(dirs[-1])
    keep = dict((p, c) for p, c in t.items() if p.startswith(td + '/') and not is_gone(p, agg['deleted']))
    kd = set(x for x in dirs_of(dirs[-1]) if (x == td or x.startswith(td + '/')) and not is_gone(x, agg['deleted']))
    files = dict(files, **keep)
    check_restored(dest, (files, edirs | kd, sums, fetch))
    mans = manifests(dest, 'tagmanifest')
    for p in files:
        if p.startswith('data/') or '/' not in p:    # those at the top are listed when the bag is saved
            continue
        last = [x for x in dirs if p in tree(x)][-1]
        for a, m in manifests(last, 'tagmanifest').items():
            if p in m:
                eq(mans.get(a, {}).get(p), m[p], "tagmanifest-%s checksum of %s" % (a, p))


def check_pieces(head, dest, dirs, agg, exp):
    """one member after the other, and the fetch list"""
    r = restore.BagRestorer(head, dest)
    fetch = {}
    have = {}
    want = {}
    gone = agg['deleted']
    for x in reversed(dirs):
        r.restore_member(os.path.basename(x), gone, fetch)
        t = tree(x)
        for p, c in t.items():
            if not SPECIAL.match(p) and not is_gone(p, gone):
                have.setdefault(p, c)
        got = dict((p, c) for p, c in tree(dest).items() if not SPECIAL.match(p))
        eq(sorted(got), sorted(have), "files after restoring a member")
        for p in have:
            expect(got[p] == have[p], "wrong content of %s after restoring a member", p)
        for l in t.get('fetch.txt', b'').decode('utf-8').split('\n'):
            if len(l.split(None, 2)) > 2:
                want.setdefault(l.split(None, 2)[2], l)
        eq(dict((p, l.strip()) for p, l in fetch.items()), dict((p, l.strip()) for p, l in want.items()), "entries to fetch")
    d2 = dest + '2'
    r = restore.BagRestorer(head, d2)
    r.restore_fetch(skip=gone)
    t = tree(d2)
    lines = [l for l in t.get('fetch.txt', b'').decode('utf-8').split('\n') if l.strip()]
    eq(sorted(lines), sorted(exp[3].values()), "fetch.txt")
    eq(sorted(t), ['fetch.txt'] if exp[3] else [], "files written for the fetch list")
