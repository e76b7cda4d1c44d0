"""bounded stand-in for C02: size limits and reservations"""
import os
from lib import *
from p_c01 import gen_limits, gen_forhead, splitter
from multibag import split


def gen(rng):
    spec = gen_bag(rng, maxfiles=12, top=rng.choice([5, 20, 60]))
    mx, tgt = gen_limits(rng, spec)
    return {'bag': spec, 'strategy': rng.choice(['well', 'neigh', 'neigh']), 'max': mx, 'target': tgt,
            'forhead': gen_forhead(rng, spec)}


def check(case, d):
    bag = write_bag(d, case['bag'])
    cls = split.WellPackedSplitter if case['strategy'] == 'well' else split.NeighborlySplitter
    fh = case['forhead']
    given = list(fh) if fh is not None else None
    sp = cls(case['max'], case['target'], fh)
    plan = sp.plan(bag)
    eq(fh, given, "the reservation list after planning")
    ms = list(plan.manifests())
    t = tree(bag)
    edirs = set(required(bag)) - set(t)
    res = set(p.lstrip('/') for p in (fh or [])) & set(t)
    mx = case['max']
    tgt = case['target'] or mx
    for i, m in enumerate(ms):
        c = m['contents']
        expect(c, "bag %d of the plan is empty", i)
        collect = i == len(ms) - 1 and any(p in edirs or p in res for p in c)
        if i < len(ms) - 1:
            expect(not (set(c) & res), "reserved file in bag %d of %d: %s", i, len(ms), set(c) & res)
        if collect:
            extra = [p for p in c if p not in edirs and p not in res]
            expect(not extra, "unreserved files in the collecting bag: %s", extra)
            continue
        sz = sum(len(t[p]) for p in c)
        eq(m['totalsize'], sz, "recorded size of bag %d" % i)
        if sz > mx:
            expect(len(c) == 1 and len(t[c[0]]) > mx, "bag %d has size %d > %d with files %s", i, sz, mx, c)
        expect(sz - len(t[c[-1]]) <= tgt, "bag %d: size %d without its last file exceeds the target %d", i,
               sz - len(t[c[-1]]), tgt)
