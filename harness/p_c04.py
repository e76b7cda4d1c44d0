"""bounded stand-in for C04: the head bag's member list and file lookup"""
import os
from lib import *
import p_c03
from p_c03 import run_split
from multibag.access.multibag import open_headbag


def gen(rng):
    return p_c03.gen(rng)


def check(case, d):
    bag, ms, out, got = run_split(case, d)
    src = tree(bag)
    names = [m['name'] for m in ms]
    h = case['head']
    members, lookup = [], OrderedDict()
    if h:
        members = list(h['members']) + [case['bag']['name']]
        if not h['nolu']:
            lookup = OrderedDict((p, b) for p, b in h['lookup'])
    for m in ms:
        if m['name'] in members:
            members.remove(m['name'])
        members.append(m['name'])
        for p in m['contents']:
            if p in src and p not in GENERATED:
                lookup[p] = m['name']
    for i, o in enumerate(got):
        ish = 'Multibag-Head-Version' in info_multi(os.path.join(o, 'bag-info.txt'))
        eq(ish, i == len(got) - 1, "bag %d of %d is a head bag" % (i, len(got)))
        if i < len(got) - 1:
            for g in GENERATED:
                expect(not os.path.exists(os.path.join(o, g)), "%s in non-head bag", g)
    head = got[-1]
    t = tree(head)
    eq(t['multibag/member-bags.tsv'].decode('utf-8').split('\n'), members + [''], "member-bags.tsv")
    got_lu = [tuple(l.split('\t')) for l in t['multibag/file-lookup.tsv'].decode('utf-8').split('\n') if l]
    eq(len(got_lu), len(set(p for p, b in got_lu)), "number of lookup entries")
    eq(dict(got_lu), dict(lookup), "file lookup")
    for p, b in got_lu:
        if b in names and p in src:
            expect(os.path.isfile(os.path.join(out, b, p)), "%s is not in %s", p, b)
    eq(t['multibag/aggregation-info.txt'], src.get('bag-info.txt', b''), "aggregation-info.txt")
    # and as this package reads it
    hb = open_headbag(head, True)
    eq(hb.member_bag_names, members, "members read back")
    eq(dict(hb.iter_file_lookup()), dict(lookup), "lookup read back")
    eq(info_multi(os.path.join(head, 'bag-info.txt'))['Multibag-Tag-Directory'], ['multibag'], "tag directory")
