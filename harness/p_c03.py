"""bounded stand-in for C03 (and the shared split driver for C04, C05, C07)"""
import os
from lib import *
from p_c01 import gen_limits, gen_forhead, splitter
from multibag import split
from multibag.access.bagit import Bag, ReadOnlyBag, open_bag

NOTPASS = ('Multibag-',)


def gen(rng):
    spec = gen_bag(rng)
    mx, tgt = gen_limits(rng, spec)
    names = sorted(set(k for k, v in spec['info']))
    ishead = rng.random() < 0.25
    head = None
    if ishead:
        own = [p for p, c in spec['files']]
        head = {'members': rng.choice([[], ['old1', 'old2'], ['old1', 'out1', 'old2']]),
                'lookup': [[p, spec['name']] for p in own] + [['data/elsewhere', 'old1']],
                'agg': rng.random() < 0.5, 'deleted': rng.choice([[], ['data/gone']]),
                'tagdir': rng.choice([None, None, None, 'mbtags']), 'nolu': rng.random() < 0.15}
    return {'bag': spec, 'strategy': rng.choice(['well', 'neigh', 'custom']), 'max': mx, 'target': tgt,
            'forhead': gen_forhead(rng, spec), 'head': head,
            'nopass': rng.choice([None, None, [], rng.sample(names, min(len(names), rng.randrange(0, 3)))]),
            'naming': rng.choice(['default', 'names', 'iter', 'shortiter']),
            'direct': rng.choice([None, None, None, 'base', 'names', 'none']),
            'src': rng.choice(['str', 'str', 'Bag', 'ro', 'zip']), 'seed': rng.randrange(10000)}


def source(case, d):
    """write the source bag of a case; returns its directory"""
    spec = json.loads(json.dumps(case['bag']))
    h = case.get('head')
    if h:
        td = h['tagdir'] or 'multibag'
        spec['tags'].append([td + '/member-bags.tsv', ''.join(m + '\n' for m in h['members'] + [spec['name']])])
        if not h['nolu']:
            spec['tags'].append([td + '/file-lookup.tsv', ''.join('%s\t%s\n' % tuple(x) for x in h['lookup'])])
        if h['agg']:
            spec['tags'].append([td + '/aggregation-info.txt', 'X-Old: 1\n'])
        if h['deleted']:
            spec['tags'].append([td + '/deleted.txt', ''.join(x + '\n' for x in h['deleted'])])
        spec['info'] += [['Multibag-Version', '0.4'], ['Multibag-Head-Version', '1.3']]
        if h['tagdir']:
            spec['info'].append(['Multibag-Tag-Directory', h['tagdir']])
    return write_bag(d, spec)


def make_plan(case, src, bag):
    if case['strategy'] == 'custom':
        rng = random.Random(case['seed'])
        plan = split.SplitPlan(src)
        req = required(bag)
        for i in range(rng.randrange(1, 4)):
            part = rng.sample(req, rng.randrange(0, len(req) + 1)) if req else []
            if rng.random() < 0.3:
                part.insert(rng.randrange(len(part) + 1), 'data/no-such-file')
            plan._manifests.append({'name': 'c%d' % i, 'contents': part, 'totalsize': 0})
        plan.complete_plan()
        return plan
    plan = splitter(case)._create_plan(bag)
    if case['src'] in ('Bag', 'str'):
        p2 = split.SplitPlan(src)              # hard links are used for this kind of source
        p2._manifests = plan._manifests
        plan = p2
    return plan


def run_split(case, d, what='split'):
    """returns (bag dir, plan's manifests with final names, out dir, list of output dirs)"""
    os.mkdir(os.path.join(d, 'in'))
    bag = source(case, os.path.join(d, 'in'))
    out = os.path.join(d, 'out')
    os.mkdir(out)
    if case.get('direct') and case['strategy'] != 'custom':
        return direct_split(case, bag, out)
    src = {'str': lambda: bag, 'Bag': lambda: Bag(bag), 'ro': lambda: ReadOnlyBag(bag),
           'zip': lambda: open_bag(zip_bag(bag))}[case['src']]()
    plan = make_plan(case, src, bag)
    n = len(list(plan.manifests()))
    names = ['out%d' % (i + 1) for i in range(n)]
    it = None
    if case['naming'] == 'default':
        plan.name_output_bags(split.SimpleNamer('nm'))
        names = ['nm_%d.mbag' % (i + 1) for i in range(n)]
    elif case['naming'] == 'names':
        plan.name_output_bags(iter(names))
    else:
        plan.name_output_bags(split.SimpleNamer('df'))
        k = n if case['naming'] == 'iter' else n // 2
        names = names[:k] + ['df_%d.mbag' % (i + 1) for i in range(k, n)]
        it = iter(names[:k])
    ms = list(plan.manifests())
    got = []
    for i, p in enumerate(plan.apply_iter(out, it, case['nopass'])):
        got.append(p)
        eq(os.path.normpath(p), os.path.join(out, names[i]), "path of output bag %d" % i)
        expect(os.path.isfile(os.path.join(p, 'bag-info.txt')), "output bag %d not finished when returned", i)
    eq(len(got), n, "number of bags written")
    eq(sorted(os.listdir(out)), sorted(names), "entries of the output directory")
    for m, nm in zip(ms, names):
        m['name'] = nm
    return bag, ms, out, got


def direct_split(case, bag, out):
    """the same with split() of the splitter"""
    src = bag
    basis = {'base': lambda n: 'bs', 'none': lambda n: None, 'names': lambda n: iter(['out%d' % (i + 1) for i in range(n)])}[case['direct']]
    ms = list(splitter(case).plan(src, basis(100)).manifests())
    n = len(ms)
    base = {'base': 'bs', 'none': os.path.splitext(os.path.basename(src))[0]}.get(case['direct'])
    names = ['out%d' % (i + 1) for i in range(n)] if base is None else ['%s_%d.mbag' % (base, i + 1) for i in range(n)]
    eq([m['name'] for m in ms], names, "names in the plan")
    got = splitter(case).split(src, out, basis(n), case['nopass'])
    eq([os.path.normpath(p) for p in got], [os.path.join(out, x) for x in names], "paths of the output bags returned")
    eq(sorted(os.listdir(out)), sorted(names), "entries of the output directory")
    return bag, ms, out, got


def expected_info(info, nopass, name, ishead, counts):
    out = OrderedDict()

    def add(k, vals):
        out.setdefault(k, []).extend(vals)
    for k, vals in info.items():
        if k.startswith('Multibag-') or k in (nopass or []):
            continue
        if k in ('Internal-Sender-Identifier', 'Internal-Sender-Description'):
            add(k, [name if k.endswith('Identifier') else None])
            add('Multibag-Source-' + k, vals)
        elif k == 'External-Identifier':
            add('Multibag-Source-' + k, vals)
            add(k, [vals[0] + '/mbag:' + name])
            add('Bag-Group-Identifier', vals)
        elif k == 'Bag-Size':
            add('Multibag-Source-Bag-Size', vals)
        elif k == 'Payload-Oxum':
            add(k, ['%d.%d' % counts])
        else:
            add(k, vals)
    return out


def check(case, d):
    import bagit
    bag, ms, out, got = run_split(case, d)
    src = tree(bag)
    sman, stman = manifests(bag), manifests(bag, 'tagmanifest')
    sinfo = OrderedDict()
    for k, v in bagit._load_tag_file(os.path.join(bag, 'bag-info.txt'), encoding='utf-8').items() \
            if 'bag-info.txt' in src else []:
        sinfo[k] = v if isinstance(v, list) else [v]
    for i, (m, o) in enumerate(zip(ms, got)):
        what = "output bag %d" % i
        t = tree(o)
        planned = [p for p in m['contents'] if p not in GENERATED]
        files = set(p for p in planned if p in src)
        edirs = set(p for p in planned if p not in src and p in dirs_of(bag))
        head = i == len(got) - 1
        have = set(p for p in t if '/' in p or not SPECIAL.match(p))
        eq(have - (set(GENERATED) if head else set()), files, what + ": files")
        for p in files:
            expect(t[p] == src[p], "%s: content of %s differs", what, p)
        for p in edirs:
            expect(os.path.isdir(os.path.join(o, p)), "%s: directory %s missing", what, p)
        anc = set()
        for p in list(files) + list(edirs) + (GENERATED if head else []) + ['data/x']:
            p = p if p in edirs else os.path.dirname(p)
            while p:
                anc.add(p)
                p = os.path.dirname(p)
        eq(dirs_of(o) - anc, set(), what + ": unexpected directories")
        expect(t['bagit.txt'] == src['bagit.txt'], "%s: bagit.txt differs", what)
        check_bag(o, what)
        loc_validate(o, what)
        pf = set(p for p in files if p.startswith('data/'))
        for kind, sm, fs in (('manifest', sman, pf), ('tagmanifest', stman, files - pf)):
            om = manifests(o, kind)
            for alg in set(sm) | set(om):
                want = dict((p, h) for p, h in sm.get(alg, {}).items() if p in fs)
                eq(dict(om.get(alg, {})), want, "%s: %s-%s" % (what, kind, alg))
        info = OrderedDict()
        for k, v in bagit._load_tag_file(os.path.join(o, 'bag-info.txt'), encoding='utf-8').items():
            info[k] = v if isinstance(v, list) else [v]
        counts = (sum(len(t[p]) for p in pf), len(pf))
        want = expected_info(sinfo, case['nopass'], m['name'], head, counts)
        for k, vals in want.items():
            if k == 'Internal-Sender-Description':
                expect(info.get(k), "%s: no %s", what, k)
            elif k == 'Bag-Group-Identifier':
                eq(sorted(info.get(k, [])), sorted(vals), "%s: bag-info %s" % (what, k))
            else:
                eq(info.get(k), vals, "%s: bag-info %s" % (what, k))
        for k in info:
            expect(k in want or k.startswith('Multibag-'), "%s: unexpected bag-info name %s", what, k)
        for k in ('Multibag-Source-' + x for x in ('Internal-Sender-Identifier', 'External-Identifier', 'Bag-Size')):
            expect((k in info) == (k in want), "%s: bag-info name %s", what, k)
        eq(info.get('Multibag-Version'), ['0.4'], what + ': Multibag-Version')
