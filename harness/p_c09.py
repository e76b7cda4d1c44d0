"""bounded stand-in for C09: formatting, parsing, saving and re-reading the multibag tag files"""
import os
from lib import *
from multibag.access import multibag as mm
from multibag.access.exceptions import MultibagError

FIELD = ['a', 'b c', 'x#y', '#z', 'é', 'http://a.org/x?y=1#f', 'ark:/88434/x', '# c', "it's", '%s', '{0}', 'a  b', '##', '0', 'samp_1.mbag',
         'n\u00a0n', 'A' * 50, '\\t', '~', 'None', '-', '"q"']


def field(rng, hash_ok=True):
    while True:
        strs, nums, nstrs, nnums = hints()
        f = rng.choice(FIELD)
        if nstrs and rng.random() < 0.2:
            f = rng.choice(nstrs)
        elif rng.random() < 0.1:
            f = rng.choice(strs)
        if rng.random() < 0.2:
            f = f + rng.choice([' ', '', '-']) + rng.choice(FIELD)
        if f and f.strip() == f and not re.search('[\t\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029]', f) and \
                (hash_ok or not f.startswith('#')):
            return f


def gen(rng):
    mem = []
    for i in range(rng.choice([0, 1, 1, 2, 3, 6])):
        comm = rng.choice([None, None, field(rng)])
        if comm:
            comm = comm.lstrip('# ').strip() or None
        mem.append([field(rng, True), rng.choice([None, field(rng, False)]), comm,
                    [field(rng, False) for j in range(rng.choice([0, 0, 1, 2, 3]))]])
    lu = OrderedDict()
    for i in range(rng.choice([0, 1, 3, 6])):
        lu[field(rng)] = field(rng)
    dl = sorted(set(field(rng) for i in range(rng.choice([0, 1, 3]))))
    return {'mem': mem, 'lu': list(lu.items()), 'del': dl, 'pad': rng.choice(['', ' ', '   ']), 'blank': rng.random() < 0.5,
            'crlf': rng.random() < 0.2, 'td': rng.choice([None, None, 'tags', 'a/b', ['old', 'cur']]),
            'ver': rng.choice(['0.4', '0.4', '0.3', '0.2', '0.10', None, ['0.2', '0.4']]), 'names02': rng.random() < 0.5,
            'ro': rng.random() < 0.5}


def key(m):
    return (m.name, m.uri, m.comment, list(m.info))


def check(case, d):
    want = [(n, u, c, list(i)) for n, u, c, i in case['mem']]
    objs = []
    for n, u, c, i in want:
        m = mm.MemberInfo(n, u, c, *i)
        objs.append(m)
        s = m.format()
        expect(s.endswith('\n') and '\n' not in s[:-1], "format() gives %r", s)
        if not n.startswith('#') or True:
            p = mm.MemberInfo.parse_line_03(s)
            eq(key(p), (n, u, c, i), "member entry after a round trip of %r" % s)
    bag = write_bag(d, {'name': 'b', 'files': [['data/x', [1, 1]]], 'info': []})
    hb = mm.HeadBag(bag)
    td = case['td']
    if isinstance(td, list):
        hb.info['Multibag-Tag-Directory'] = list(td)
        td = td[-1]
    elif td:
        hb.set_multibag_tag_dir(td)
    if td and '/' in td:
        os.mkdir(os.path.join(bag, td.split('/')[0]))
    hb.info['Multibag-Version'] = '0.4'
    hb.set_member_bags(objs)
    for p, b in case['lu']:
        hb.add_file_lookup(p, b)
    for p in case['del']:
        hb.set_deleted(p)
    hb.save_member_bags()
    hb.save_file_lookup()
    hb.save_deleted()
    hb.save()
    tdir = os.path.join(bag, td or 'multibag')
    h2 = mm.open_headbag(bag, case['ro'])
    eq([key(m) for m in h2.member_bags()], want, "members read back")
    if case['lu']:
        eq([list(x) for x in h2.iter_file_lookup()], [list(x) for x in case['lu']], "lookup read back")
        for p, b in case['lu']:
            eq(h2.lookup_file(p), b, "lookup_file(%r)" % p)
    eq(sorted(h2.deleted_paths()), sorted(case['del']), "deleted paths read back")
    eq(sorted(h2.iter_deleted()), sorted(case['del']), "iter_deleted()")

    # hand-written files, in the format of the version declared
    ver = case['ver']
    eff = (ver[-1] if isinstance(ver, list) else ver) or '0.4'
    old = eff == '0.2'
    hb = mm.HeadBag(bag)
    if ver is None:
        hb.info.pop('Multibag-Version', None)
    else:
        hb.info['Multibag-Version'] = ver
    hb.save()
    nl = '\r\n' if case['crlf'] else '\n'
    pad = case['pad']
    blank = (nl + '  ' + nl) if case['blank'] else ''
    nosp = lambda x: re.sub(r'\s', '_', x)
    if old:
        mems = [(nosp(n), u and nosp(u), None, []) for n, u, c, i in want]
        lus = [(nosp(p), nosp(b)) for p, b in case['lu']]
        mt = ''.join(' ' * len(pad) + n + (' ' + pad + u if u else '') + pad + nl + blank for n, u, c, i in mems)
        lt = ''.join(p + ' ' + pad + b + nl + blank for p, b in lus)
        names = ('group-members.txt', 'group-directory.txt')
        decoy = ('member-bags.tsv', 'file-lookup.tsv')
    else:
        mems = want
        lus = [tuple(x) for x in case['lu']]
        mt = ''.join(n + pad + ''.join('\t' + x for x in ([u or ''] if u or i else []) + i + (['#' + pad + c] if c else []))
                     + nl + blank for n, u, c, i in mems)
        lt = ''.join(p + pad + '\t' + pad + b + nl + blank for p, b in lus)
        names = ('member-bags.tsv', 'file-lookup.tsv')
        decoy = ('group-members.txt', 'group-directory.txt')
    for n, t in zip(names, (mt, lt)):
        write(os.path.join(tdir, n), t.encode('utf-8'))
    for n in decoy:
        write(os.path.join(tdir, n), b'decoy decoy2\tdecoy3\n')
    write(os.path.join(tdir, 'deleted.txt'), ''.join(p + nl + blank for p in case['del']).encode('utf-8'))
    h3 = mm.open_headbag(bag, case['ro'])
    eq([key(m) for m in h3.iter_member_bags()], mems, "members of a hand-written %s" % names[0])
    eq(h3.member_bag_names, [m[0] for m in mems], "member names")
    eq(list(h3.iter_file_lookup()), lus, "lookup of a hand-written %s" % names[1])
    eq(sorted(set(h3.deleted_paths())), sorted(case['del']), "deleted paths of a hand-written file")

    # lines lacking a required field
    for f, l in ((mm.parse_file_lookup_line_03, 'data/x\n'), (mm.parse_file_lookup_line_03, 'data/x y\n'),
                 (mm.parse_group_directory_line, 'data/x\n'), (mm.parse_group_directory_line, '\n'),
                 (mm.MemberInfo.parse_line_03, '\n'), (mm.MemberInfo.parse_line_03, '  \t \n'),
                 (mm.MemberInfo.parse_line_02, ' \n')):
        try:
            r = f(l)
        except MultibagError:
            continue
        raise Bad("%s accepts %r" % (f.__name__, l))
    # missing files
    os.remove(os.path.join(tdir, names[0]))
    os.remove(os.path.join(tdir, names[1]))
    h4 = mm.open_headbag(bag, True)
    for f in (h4.iter_member_bags, h4.iter_file_lookup):
        try:
            list(f())
        except mm.MissingMultibagFileError:
            continue
        raise Bad("missing file not reported")
