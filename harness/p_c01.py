"""bounded stand-in for C01: plans cover every file exactly once, missing(), naming"""
import os
from lib import *
from multibag import split
from multibag.access.bagit import Bag, ReadOnlyBag, open_bag


def gen_limits(rng, spec):
    sizes = [c[0] for p, c in spec['files']] + [c[0] for p, c in spec['tags'] if not isinstance(c, str)]
    tot = sum(sizes)
    mx = rng.choice([1, 5, 10, 20, 50, 100, tot, max(1, tot - 1), tot // 2 + 1, max(sizes or [1]), max(sizes or [1]) + 1,
                     max(1, max(sizes or [1]) - 1), 60000])
    tgt = rng.choice([None, None, mx, max(1, mx // 2), 1, mx + 5, max(1, mx - 1)])
    return max(1, mx), tgt


def gen_forhead(rng, spec):
    allp = [p for p, c in spec['files']] + [p for p, c in spec['tags']]
    fh = rng.choice([None, [], rng.sample(allp, rng.randrange(0, min(4, len(allp)) + 1))])
    if fh:
        fh = [('/' + p if rng.random() < 0.3 else p) for p in fh]
        if rng.random() < 0.2:
            fh.append('data/not-there')
    return fh


def gen(rng):
    spec = gen_bag(rng)
    if rng.random() < 0.15:
        spec['tags'].append(['multibag/member-bags.tsv', 'old\n'])
    mx, tgt = gen_limits(rng, spec)
    return {'bag': spec, 'strategy': rng.choice(['well', 'neigh', 'neigh']), 'max': mx, 'target': tgt,
            'forhead': gen_forhead(rng, spec), 'names': rng.choice([None, 'base', 'iter', 'rev', 'short', 'empty']),
            'src': rng.choice(['str', 'Bag', 'ro', 'zip']), 'perm': rng.randrange(1000), 'slash': rng.random() < 0.2}


def splitter(case):
    cls = split.WellPackedSplitter if case['strategy'] == 'well' else split.NeighborlySplitter
    if case['forhead'] is None:
        return cls(case['max'], case['target'])
    return cls(case['max'], case['target'], list(case['forhead']))


def check(case, d):
    bag = write_bag(d, case['bag'])
    want = required(bag)
    rng = random.Random(case['perm'])
    sp = splitter(case)
    plan = sp._create_plan(bag) if case['names'] in ('rev', 'short', 'empty') else \
        sp.plan(bag, *([] if case['names'] is None else ['base'] if case['names'] == 'base' else
                       [iter(['n%d' % i for i in range(100)])]))
    ms = list(plan.manifests())
    got = [p for m in ms for p in m['contents']]
    eq(sorted(got), want, "paths assigned by the plan")
    eq([m['ishead'] for m in ms], [False] * (len(ms) - 1) + [True] * min(1, len(ms)), "head bag marks")
    expect(plan.is_complete(), "plan is not complete")
    eq(list(plan.missing()), [], "missing from a complete plan")
    for m in ms:
        for p in m['contents']:
            eq(plan.find_destination(p)['contents'], m['contents'], "destination of " + p)
    eq(plan.find_destination('data/nowhere-to-be-found'), None, "destination of an unknown path")
    # names
    if case['names'] in (None, 'base'):
        base = 'base' if case['names'] else os.path.splitext(os.path.basename(bag))[0]
        eq([m['name'] for m in ms], ['%s_%d.mbag' % (base, i + 1) for i in range(len(ms))], "default names")
    elif case['names'] == 'iter':
        eq([m['name'] for m in ms], ['n%d' % i for i in range(len(ms))], "names from an iterator")
    elif case['names'] == 'rev':
        plan.name_output_bags(iter(['n%d' % i for i in range(len(ms) + 2)]), True)
        eq([m['name'] for m in plan.manifests()], ['n%d' % i for i in reversed(range(len(ms)))], "reversed names")
        eq([m['contents'] for m in plan.manifests()], [m['contents'] for m in ms], "contents after naming")
        it = iter(['k%d' % i for i in range(len(ms) + 2)])
        plan.name_output_bags(it)
        eq([m['name'] for m in plan.manifests()], ['k%d' % i for i in range(len(ms))], "names")
        eq(next(it), 'k%d' % len(ms), "names consumed")
    elif ms:
        n = len(ms) - 1 if case['names'] == 'short' else 0
        try:
            plan.name_output_bags(iter(['n%d' % i for i in range(n)]))
        except RuntimeError:
            pass
        else:
            raise Bad("too few names were accepted")
    eq([m['contents'] for m in plan.manifests()], [m['contents'] for m in ms], "contents after naming")
    # modifying what manifests() gives out must not change the plan
    for m in plan.manifests():
        m['contents'].append('zzz')
    eq([m['contents'] for m in plan.manifests()], [m['contents'] for m in ms], "contents after changing a copy")

    # partial plans
    src = {'str': lambda: bag, 'Bag': lambda: Bag(bag), 'ro': lambda: ReadOnlyBag(bag),
           'zip': lambda: open_bag(zip_bag(bag))}[case['src']]()
    p2 = split.SplitPlan(src)
    eq(sorted(p2.required()), want, "required()")
    eq(sorted(p2.missing()), want, "missing() of an empty plan")
    eq(p2.is_complete(), not want, "is_complete() of an empty plan")
    assigned = []
    for i in range(rng.randrange(0, 4)):
        part = rng.sample(want, rng.randrange(0, len(want) + 1)) if want else []
        if rng.random() < 0.2:
            part = part + ['data/extra']
        p2._manifests.append({'name': 'm%d' % i, 'contents': list(part), 'totalsize': 0})
        assigned.append(part)
        eq(sorted(p2.missing()), sorted(set(want) - set(sum(assigned, []))), "missing() of a partial plan")
    for p in want + ['data/extra']:
        dest = [i for i in range(len(assigned)) if p in assigned[i]]
        g = p2.find_destination(p)
        eq(g and g['name'], dest and 'm%d' % dest[-1] or None, "find_destination(%s)" % p)
    left = sorted(set(want) - set(sum(assigned, [])))
    p2.complete_plan()
    expect(p2.is_complete(), "complete_plan() left something out")
    eq([m['contents'] for m in p2.manifests()][:len(assigned)], assigned, "earlier assignments after completing")
    eq(sorted(p for m in list(p2.manifests())[len(assigned):] for p in m['contents']), left, "contents added by completing")
    eq(len(list(p2.manifests())), len(assigned) + (1 if left else 0), "number of bags after completing")
    if left:
        expect(list(p2.manifests())[-1].get('name'), "completing bag has no name")
    before = [dict(m) for m in p2.manifests()]
    p2.complete_plan()
    eq([dict(m) for m in p2.manifests()], before, "completing twice")
