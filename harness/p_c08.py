"""bounded stand-in for C08: amending and converting"""
import os
from lib import *
from multibag import amend
from multibag.access.bagit import Bag, open_bag
from multibag.access.multibag import open_headbag


def small(rng, name, pool):
    fs = rng.sample(pool, rng.randrange(0, len(pool) + 1))
    return {'name': name, 'files': [[p, [num(rng, 20), rng.randrange(1000)]] for p in fs], 'dirs': [],
            'tags': rng.choice([[], [['meta/t.txt', [4, 1]]]]), 'algs': rng.sample(ALGS, 1), 'talgs': rng.choice([[], ['md5']]),
            'info': gen_info(rng), 'version': '0.97', 'oxum': True}


def member(rng, name):
    m = {'name': name, 'uri': rng.choice([None, None, 'ark:/1/2', 'http://a.org/b']), 'comment': rng.choice([None, None, 'a note', '#2']),
         'info': rng.choice([[], [], ['x'], ['x y', 'é']])}
    return m


def gen(rng):
    pool = gen_paths(rng, rng.choice([2, 4, 6]))
    old = small(rng, rng.choice(['old', 'old bag', 'head.1']), pool)
    op = rng.choice(['plain', 'head', 'head', 'head', 'convert'])
    head = None
    if op == 'head':
        others = rng.sample(['mA', 'mB', 'new', 'add0'], rng.randrange(0, 3))
        lu = [[p, old['name']] for p, c in old['files']]
        for o in others:
            lu += [[p, o] for p in rng.sample(pool, rng.randrange(0, len(pool) + 1)) if not any(p == q for q, b in lu)]
        rng.shuffle(lu)
        head = {'members': [member(rng, n) for n in others] + [member(rng, old['name'])], 'lookup': lu,
                'deleted': rng.sample(pool + ['data/zz'], rng.randrange(0, 3)), 'version': rng.choice(['1', '2.1', '1.0-rc']),
                'deprecates': rng.choice([[], ['0.9'], ['0.8', '0.9', '0.10,oldbag']]),
                'profile': rng.choice(['0.4', '0.4', '0.3', '0.2']), 'tagdir': rng.choice([None, None, 'mbx'])}
        if head['profile'] == '0.2':
            for m in head['members']:
                m['comment'], m['info'] = None, []
                m['name'] = m['name'].replace(' ', '_')
            head['lookup'] = [[p, b.replace(' ', '_')] for p, b in lu if ' ' not in p]
            head['deleted'] = []
    return {'op': op, 'old': old, 'head': head, 'new': small(rng, rng.choice(['new', 'new head', 'add9']), pool),
            'newdel': rng.choice([[], ['data/nn'], rng.sample(pool, 1)]), 'stale': rng.random() < 0.2,
            'adds': [small(rng, 'add%d' % i, pool) for i in range(rng.choice([0, 0, 1, 2, 3]))],
            'addinfo': [member(rng, 'x') for i in range(3)], 'self': member(rng, 'x'), 'api': rng.random() < 0.5,
            'arg': rng.choice(['str', 'Bag', 'ro', 'slash']), 'version': rng.choice(['2', '3.0', 'v4'])}


def fmt(m, prof):
    if prof == '0.2':
        return m['name'] + (' ' + m['uri'] if m['uri'] else '') + '\n'
    return '\t'.join([m['name']] + ([m['uri'] or ''] if m['uri'] or m['info'] else []) + m['info'] +
                     (['# ' + m['comment']] if m['comment'] else [])) + '\n'


def write_all(case, d):
    root = os.path.join(d, 'w')
    os.mkdir(root)
    old = json.loads(json.dumps(case['old']))
    h = case['head']
    if h:
        td = h['tagdir'] or 'multibag'
        if h['profile'] == '0.2':
            old['tags'].append([td + '/group-members.txt', ''.join(fmt(m, '0.2') for m in h['members'])])
            old['tags'].append([td + '/group-directory.txt', ''.join('%s %s\n' % tuple(x) for x in h['lookup'])])
        else:
            old['tags'].append([td + '/member-bags.tsv', ''.join(fmt(m, '') for m in h['members'])])
            old['tags'].append([td + '/file-lookup.tsv', ''.join('%s\t%s\n' % tuple(x) for x in h['lookup'])])
            if h['deleted']:
                old['tags'].append([td + '/deleted.txt', ''.join(p + '\n' for p in h['deleted'])])
        old['info'] += [['Multibag-Version', h['profile']], ['Multibag-Head-Version', h['version']]]
        old['info'] += [['Multibag-Head-Deprecates', v] for v in h['deprecates']]
        if h['tagdir']:
            old['info'].append(['Multibag-Tag-Directory', h['tagdir']])
    new = json.loads(json.dumps(case['new']))
    if case['newdel']:
        new['tags'].append(['multibag/deleted.txt', ''.join(p + '\n' for p in case['newdel'])])
    if case['stale']:
        new['tags'].append(['multibag/member-bags.tsv', 'stale1\nstale2\n'])
        new['tags'].append(['multibag/file-lookup.tsv', 'data/stale\tstale1\n'])
    return write_bag(root, old), [write_bag(root, a) for a in case['adds']], write_bag(root, new)


def as_arg(case, old):
    return {'str': lambda: old, 'slash': lambda: old + '/' if case['op'] == 'convert' else old,
            'Bag': lambda: Bag(old), 'ro': lambda: open_bag(old)}[case['arg']]()


def amend_all(case, given, adds, new):
    if case['api']:
        amend.amend_bag_with(given, new, case['version'], *adds)
    else:
        s = case['self']
        a = amend.Amender(given, new, s['uri'], s['comment'], s['info'])
        a.init_from_amendee()
        for b, m in zip(adds, case['addinfo']):
            a.add_amending_bag(b, None, None, m['uri'], m['comment'], m['info'])
        a.finalize(case['version'])


def key(m):
    return (m['name'], m['uri'] or None, m['comment'], list(m['info']))


def keyo(m):
    return (m.name, m.uri or None, m.comment, list(m.info))


def check(case, d):
    old, adds, new = write_all(case, d)
    if case['op'] == 'convert':
        pid = case['self']['uri']
        arg = old + '/' if case['arg'] == 'slash' else old
        amend.make_single_multibag(arg, case['version'], *([pid] if pid else []))
        hb = open_headbag(old, True)
        eq([keyo(m) for m in hb.member_bags()], [(case['old']['name'], pid, None, [])], "member of the converted bag")
        eq(sorted(hb.iter_file_lookup()), sorted((p, case['old']['name']) for p, c in case['old']['files']), "lookup of the converted bag")
        eq(hb.head_version, case['version'], "version of the converted bag")
        loc_validate(old, 'converted bag')
        check_bag(old, 'converted bag')
        return
    adds = adds[:3]
    amend_all(case, as_arg(case, old), adds, new)
    h = case['head']
    members = [key(m) for m in h['members']] if h else [(case['old']['name'], None, None, [])]
    later = []
    for b, m in list(zip(case['adds'], case['addinfo'])) + [(case['new'], case['self'])]:
        if case['api']:
            later.append((b['name'], None, None, []))
        else:
            later.append((b['name'], m['uri'] or None, m['comment'], list(m['info'])))
    lookup = OrderedDict((p, b) for p, b in h['lookup']) if h else \
        OrderedDict((p, case['old']['name']) for p, c in case['old']['files'])
    for mm, b in zip(later, case['adds'] + [case['new']]):
        members = [m for m in members if m[0] != mm[0]] + [mm]
        lookup = OrderedDict((p, n) for p, n in lookup.items() if n != b['name'])
        for p, c in b['files']:
            lookup[p] = b['name']
    hb = open_headbag(new, True)
    eq([keyo(m) for m in hb.member_bags()], members, "member bags")
    got = list(hb.iter_file_lookup())
    eq(dict(got), dict(lookup), "file lookup")
    eq(len(got), len(lookup), "number of lookup entries")
    newdel = set(case['newdel'])
    deleted = set(newdel)
    if h and h['deleted']:
        provided = set()
        for b in case['adds'] + [case['new']]:
            provided |= set(tree(os.path.join(d, 'w', b['name'])))
        deleted |= set(p for p in h['deleted'] if p not in provided)
    got = set(hb.deleted_paths())
    # re-adding a bag that is a member already also drops the deletion marks of files listed for it
    readded = set()
    if h:
        cur = OrderedDict((p, b) for p, b in h['lookup'])
        for b in case['adds'] + [case['new']]:
            readded |= set(p for p, n in cur.items() if n == b['name'])
    expect(got - readded == deleted - readded, "deleted paths: got %s, expected %s", sorted(got), sorted(deleted))
    expect(got <= deleted, "unexpected deleted paths: %s", sorted(got - deleted))
    import bagit
    info = bagit.Bag(new).info
    dep = info.get('Multibag-Head-Deprecates')
    dep = dep if isinstance(dep, list) else [dep]
    eq(dep, (h['deprecates'] + [h['version']]) if h else ['1'], "Multibag-Head-Deprecates")
    eq(info.get('Multibag-Head-Version'), case['version'], "Multibag-Head-Version")
    eq(info.get('Multibag-Version'), '0.4', "Multibag-Version")
    loc_validate(new, 'new head bag')
