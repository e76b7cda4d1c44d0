"""bounded stand-in for C15: sizes of test data, and the payload totals of a bag"""
import os
from lib import *
from multibag.testing import mkdata
from multibag.access import extended
from multibag.access.bagit import Bag


def big(rng):
    strs, nums, nstrs, nnums = hints()
    k = rng.random()
    if nnums and k < 0.2:
        return abs(rng.choice(nnums)) + rng.choice([-1, 0, 1])
    if k < 0.3:
        return abs(rng.choice(nums)) + rng.choice([-1, 0, 1])
    return rng.choice([0, 1, 2, 3, 7, 10, 99, 100, 101, 1000, 1001, rng.randrange(0, 5000), rng.randrange(0, 300), rng.randrange(0, 10 ** 9)])


def gen(rng):
    sizes = {}
    for i in range(rng.choice([0, 1, 2, 4])):
        sizes[str(max(0, min(big(rng), 500)))] = rng.choice([0, 1, 2, 5])
    return {'uni': [[max(0, big(rng)), max(1, min(big(rng), 3000))] for i in range(6)], 'sizes': sizes,
            'file': [max(0, min(big(rng), 20000)) for i in range(3)],
            'ds': [max(1, min(big(rng), 9000)), max(1, min(big(rng), 25))], 'bag': gen_bag(rng),
            'plan': rng.choice([None, 'dirs', 'inv', 'mix'])}


def check(case, d):
    for tot, n in case['uni']:
        l = list(mkdata.UniformSizeIterator(tot, n).iterate())
        eq(len(l), n, "number of sizes dividing %d by %d" % (tot, n))
        eq(sum(l), tot, "sum of sizes dividing %d by %d" % (tot, n))
        expect(max(l) - min(l) <= 1 and min(l) >= 0, "sizes dividing %d by %d range from %d to %d", tot, n, min(l), max(l))
        u = mkdata.UniformSizeIterator(totalsize=tot)
        u.target_totalfiles = n
        eq(sorted(u.iterate()), sorted(l), "sizes when set later")
        eq((u.totalsize, u.totalfiles), (tot, n), "reported totals")
    inv = dict((int(k), v) for k, v in case['sizes'].items())
    l = list(mkdata.InventorySizeIterator(sizes=inv).iterate())
    eq(Counter(l), Counter(dict((k, v) for k, v in inv.items() if v)), "sizes from an inventory")
    for n in case['file']:
        p = os.path.join(d, 'f')
        eq(mkdata.create_file(p, n), n, "size reported for a file")
        eq(os.path.getsize(p), n, "size of a file")
    tot, n = case['ds']
    p = os.path.join(d, 'ds')
    mkdata.mkdataset(p, tot, n)
    t = tree(p)
    eq((sum(len(c) for c in t.values()), len(t)), (tot, n), "bytes and files of the data set")
    inv2 = dict((k, v) for k, v in inv.items() if v) or {3: 2}
    files = [{'type': 'inventory', 'sizes': inv2}] if case['plan'] in ('inv', 'mix') else \
        [{'type': 'uniform', 'totalsize': tot, 'totalfiles': n}]
    plan = {'totalsize': tot + sum(k * v for k, v in inv2.items()), 'totalfiles': n + sum(inv2.values()), 'files': files}
    if case['plan'] in ('dirs', 'mix'):
        plan['dirs'] = [{'totalsize': tot, 'totalfiles': n}]
    p = os.path.join(d, 'ds2')
    dm = mkdata.DatasetMaker(p, plan)
    got = dm.fill()
    t = tree(p) if os.path.exists(p) else {}
    eq(tuple(got), (sum(len(c) for c in t.values()), len(t)), "totals reported for a filled directory")
    dm = mkdata.DatasetMaker(os.path.join(d, 'ds3'), {'totalsize': 10})
    szs = [x for x, k in case['uni']] + case['file']
    szs = [x % 400 for x in szs]
    got = dm._fill_with_files('', sum(szs[:3]), 5, iter(szs)) if hasattr(dm, '_fill_with_files') else None
    if got is not None:
        t = tree(dm.root) if os.path.exists(dm.root) else {}
        eq(tuple(got), (sum(len(c) for c in t.values()), len(t)), "totals reported for created files")
        expect(got[0] <= sum(szs[:3]) and got[1] <= 5, "limits on the files created")
    bag = write_bag(d, case['bag'])
    pay = dict((k, v) for k, v in tree(bag).items() if k.startswith('data/'))
    want = (sum(len(c) for c in pay.values()), len(pay))
    b = extended.as_extended(Bag(bag))
    eq(tuple(b.calc_oxum()), want, "payload totals")
    b.update_oxum()
    eq(b.info.get('Payload-Oxum'), '%d.%d' % want, "Payload-Oxum")
    eq(tuple(b.calc_oxum()), want, "payload totals again")
