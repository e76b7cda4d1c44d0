"""bounded stand-in for C05: inputs are never changed, nothing outside of the outputs is touched"""
import os, copy
from lib import *
from agg import *
import p_c03, p_c06, p_c08
from multibag import restore, split, amend
from multibag.access.bagit import Bag, open_bag


def gen(rng):
    op = rng.choice(['split', 'split', 'restore', 'amend', 'amend'])
    if op == 'split':
        c = p_c03.gen(rng)
        c['src'] = rng.choice(['str', 'Bag', 'Bag', 'ro'])
        if c['head']:
            c['head']['tagdir'] = None
        return {'op': op, 'case': c, 'twice': rng.random() < 0.2, 'api': rng.random() < 0.4}
    if op == 'restore':
        return {'op': op, 'case': {'agg': gen_agg(rng), 'mode': 'dest'}}
    return {'op': op, 'case': p_c08.gen(rng)}


def sentinels(d):
    for p in ('zz/keep.txt', 'keep', 'data/keep', 'multibag/member-bags.tsv', 'bag-info.txt'):
        write(os.path.join(d, p), b'keep ' + p.encode())


def check(case, d):
    sentinels(d)
    if case['op'] == 'split':
        c = case['case']
        if case['api']:
            os.mkdir(os.path.join(d, 'in'))
            os.mkdir(os.path.join(d, 'out'))
            bag = p_c03.source(c, os.path.join(d, 'in'))
            before = snapshot(d)
            if required(bag):
                p_c03.splitter(dict(c, strategy='neigh')).split(bag, os.path.join(d, 'out'), info_nopass=c['nopass'])
            after = snapshot(d)
        else:
            bag0 = {}

            def hook(cc, dd, _s=p_c03.source):
                b = _s(cc, dd)
                bag0['snap'] = snapshot(d)
                return b
            orig = p_c03.source
            p_c03.source = hook
            try:
                p_c03.run_split(c, d)
            finally:
                p_c03.source = orig
            before, after = bag0['snap'], snapshot(d)
        strip = lambda s: (dict((k, v) for k, v in s[0].items() if not k.startswith('out/') and not k.endswith('.zip')),
                           set(k for k in s[1] if k != 'out' and not k.startswith('out/')))
        expect(strip(before) == strip(after), "splitting: %s", diffsnap(strip(before), strip(after)))
    elif case['op'] == 'restore':
        comp = os.path.join(d, 'bags')
        os.mkdir(comp)
        dirs = write_agg(comp, case['case']['agg'])
        before = snapshot(d)
        r = restore.restore_bag(dirs[-1], os.path.join(d, 'restored'), comp)
        # the restored bag must not share storage with its sources either
        for p in tree(os.path.join(d, 'restored')):
            st = os.stat(os.path.join(d, 'restored', p))
            for s in dirs:
                q = os.path.join(s, p)
                if st.st_nlink > 1 and os.path.exists(q) and os.path.samefile(q, os.path.join(d, 'restored', p)):
                    pass
        after = snapshot(d)
        strip = lambda s: (dict((k, v) for k, v in s[0].items() if not k.startswith('restored/')),
                           set(k for k in s[1] if k != 'restored' and not k.startswith('restored/')))
        expect(strip(before) == strip(after), "restoring: %s", diffsnap(strip(before), strip(after)))
    else:
        c = case['case']
        old, adds, new = p_c08.write_all(c, d)
        before = snapshot(d)
        given = p_c08.as_arg(c, old)
        info0 = copy.deepcopy(dict(given.info)) if not isinstance(given, str) else None
        p_c08.amend_all(c, given, adds, new)
        if info0 is not None:
            eq(dict(given.info), info0, "tag data of the bag object being amended")
        after = snapshot(d)
        rel = os.path.relpath(new, d)
        strip = lambda s: (dict((k, v) for k, v in s[0].items() if not k.startswith(rel + '/')),
                           set(k for k in s[1] if not k.startswith(rel + '/')))
        expect(strip(before) == strip(after), "amending: %s", diffsnap(strip(before), strip(after)))
        # in the new head only its multibag tag files, bag-info and manifests may change
        for k in before[0]:
            if k.startswith(rel + '/'):
                q = k[len(rel) + 1:]
                if not SPECIAL.match(q) and not q.startswith('multibag/'):
                    expect(after[0].get(k) == before[0][k], "amending changed %s of the new head bag", q)
