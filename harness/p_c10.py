"""bounded stand-in for C10: random edit histories of a head bag against a plain model"""
import os
from lib import *
from multibag.access import multibag as mm
from multibag.access.bagit import open_bag

NAMES = ['m1', 'm2', 'm3', 'bag']
PATHS = ['data/a', 'data/b', 'data/c', 'data/d/e', 'meta.txt', 'multibag/x']


def gen(rng):
    names, paths = list(NAMES), list(PATHS)
    strs, nums, nstrs, nnums = hints()
    for s in nstrs:
        if okname(s) and '\t' not in s:
            names.append(s)
            paths.append('data/' + s)
    # near each other under all kinds of normalisation
    paths += rng.sample(['data/A', 'Data/a', '/data/a', 'data/d/', 'data/\xe9', 'data/e\u0301', 'data/a b', '#x', './data/a', 'data//b',
                         'data/a.txt', 'data/%61', 'data\\a', 'data/d/../a', 'data'], 3)
    names += rng.sample(['M1', 'm1.zip', 'm1/', 'm', '#m1', 'm 1', 'bag.mbag'], 1)
    ops = []
    disk = list(paths)
    mem = rng.random() < 0.2        # edits that are never saved: paths the files themselves could not hold
    if mem:
        paths += rng.sample(['data/a ', ' data/a', 'data/b\t', 'data/d/e ', 'data/d/e/', 'meta.txt\r', ' meta.txt'], 3)
    for i in range(rng.choice([1, 2, 4, 8, 15])):
        k = rng.choice(['addm', 'addm', 'remm', 'addl', 'addl', 'reml', 'setd', 'unsetd', 'setm', 'reread', 'save', 'clear', 'upd',
                        'look', 'files', 'reopen', 'savem', 'savel', 'saved', 'listm', 'listd'])
        if mem and k in ('save', 'savem', 'savel', 'saved', 'reopen'):
            k = 'reml'
        if k == 'addm':
            ops.append([k, rng.choice(names), rng.choice([None, 'ark:/1']), rng.choice([None, 'c']), rng.choice([None, [], ['i', 'j']]),
                        rng.random() < 0.75])
        elif k in ('remm', 'files'):
            ops.append([k, rng.choice(names)])
        elif k == 'addl':
            ops.append([k, rng.choice(paths), rng.choice(names)])
        elif k in ('reml', 'setd', 'unsetd', 'look'):
            ops.append([k, rng.choice(paths)])
        elif k == 'setm':
            ops.append([k, rng.sample(names, rng.randrange(0, 4))])
        elif k == 'reread':
            ops.append([k, rng.choice('mld')])
        elif k == 'upd':
            ops.append([k, rng.choice([None, None, ['data'], 'data/a', ['data/d', 'meta.txt'], ['nope', 'data/a']]),
                        rng.choice([None, None, [], 'data/a', ['data/d'], ['data/b', 'data']]), rng.random() < 0.5,
                        rng.choice([None, 'm2'])])
        else:
            ops.append([k])
    lu = OrderedDict((p, rng.choice(names)) for p in rng.sample(disk, rng.randrange(0, len(disk))))
    return {'members': rng.choice([None, [rng.choice(names) for i in range(rng.randrange(0, 5))]]),
            'lookup': rng.choice([None, list(lu.items()), list(lu.items())]),
            'deleted': rng.choice([None, rng.sample(disk, rng.randrange(0, 3))]), 'ops': ops, 'mem': mem}


class Model(object):
    def __init__(self, hm, lu, dl):
        self.disk = [hm, lu, dl]
        self.reset()

    def reset(self):
        hm, lu, dl = self.disk
        self.m = [tuple(x) for x in hm or []]
        self.l = OrderedDict(lu or [])
        self.d = set(dl or [])
        self.touched = [False, False, False]


def check(case, d):
    bag = write_bag(d, {'name': 'bag', 'files': [['data/a', [1, 1]], ['data/b', [2, 1]], ['data/d/e', [3, 1]]],
                        'tags': [['meta.txt', [4, 1]]], 'info': [['Multibag-Version', '0.4']]})
    hm = [(n, None, None, ()) for n in case['members']] if case['members'] is not None else None
    td = os.path.join(bag, 'multibag')
    if hm is not None:
        write(os.path.join(td, 'member-bags.tsv'), ''.join(m[0] + '\n' for m in hm).encode())
    if case['lookup'] is not None:
        write(os.path.join(td, 'file-lookup.tsv'), ''.join('%s\t%s\n' % tuple(x) for x in case['lookup']).encode())
    if case['deleted'] is not None:
        write(os.path.join(td, 'deleted.txt'), ''.join(x + '\n' for x in case['deleted']).encode())
    mo = Model(hm, case['lookup'], case['deleted'])
    hb = mm.HeadBag(bag)
    loaded = lambda n: getattr(hb, n, '?') is not None
    key = lambda m: (m.name, m.uri, m.comment, tuple(m.info))

    def remove(n):
        mo.m = [m for m in mo.m if m[0] != n]
        for p in [p for p in mo.l if mo.l[p] == n]:
            del mo.l[p]
            mo.d.discard(p)

    def add(n, u, c, i, ov=True):
        if ov:
            remove(n)
        mo.m.append((n, u, c, tuple(i or ())))
    for step, op in enumerate(case['ops']):
        k = op[0]
        what = "step %d %s" % (step, op)
        if k == 'addm':
            hb.add_member_bag(op[1], op[2], op[3], op[4], op[5])
            add(*op[1:])
        elif k == 'remm':
            hb.remove_member_bag(op[1])
            remove(op[1])
        elif k == 'addl':
            hb.add_file_lookup(op[1], op[2])
            mo.l[op[1]] = op[2]
        elif k == 'reml':
            hb.remove_file_lookup(op[1])
            mo.l.pop(op[1], None)
        elif k == 'setd':
            hb.set_deleted(op[1])
            mo.d.add(op[1])
        elif k == 'unsetd':
            hb.unset_deleted(op[1])
            mo.d.discard(op[1])
        elif k == 'setm':
            hb.set_member_bags([mm.MemberInfo(n) for n in op[1]])
            mo.m = [(n, None, None, ()) for n in op[1]]
        elif k == 'reread':
            if op[1] == 'm':
                if not os.path.exists(os.path.join(td, 'member-bags.tsv')):
                    continue               # nothing to re-read
                eq([key(m) for m in hb.member_bags(True)], [tuple(x) for x in mo.disk[0]], what)
                mo.m = [tuple(x) for x in mo.disk[0]]
            elif op[1] == 'l':
                if not os.path.exists(os.path.join(td, 'file-lookup.tsv')):
                    continue
                eq(hb.lookup_file('data/a', True), dict(mo.disk[1]).get('data/a'), what)
                mo.l = OrderedDict(mo.disk[1])
            else:
                eq(set(hb.deleted_paths(True)), set(mo.disk[2] or []), what)
                mo.d = set(mo.disk[2] or [])
        elif k == 'clear':
            hb.clear_file_lookup()
            mo.l = OrderedDict()
            mo.disk[1] = None
        elif k == 'upd':
            inc, exc, mk, nm = op[1:]
            name = nm or 'bag'
            if mk:
                hb.update_for_member(open_bag(bag), inc, exc, True, nm)
                add(name, None, None, ())
            else:
                hb.update_for_member(open_bag(bag), inc, exc, False, nm)
            incl = ['data'] if inc is None else [inc] if isinstance(inc, str) else inc
            excl = [] if exc is None else [exc] if isinstance(exc, str) else exc
            files = ['data/a', 'data/b', 'data/d/e', 'meta.txt']
            sel = []
            for x in incl:
                if x in excl:
                    continue
                if x in files:
                    sel.append(x)
                elif x in ('data', 'data/d'):
                    for f in files:
                        if f.startswith(x + '/') and f not in excl:
                            ds = [f[:j] for j in range(len(f)) if f[j] == '/']
                            if not any(dd in excl for dd in ds if (dd + '/').startswith(x + '/')):
                                sel.append(f)
            old = list(mo.l)
            for f in sel:
                mo.l[f] = name
            # files found in a directory come in any order: take it from the bag
            for n in sorted(set(mo.l.values())):
                got = hb.files_in_member(n)
                eq(sorted(got), sorted(p for p in mo.l if mo.l[p] == n), what + ": files in " + n)
                eq([p for p in got if p in old], [p for p in old if mo.l[p] == n], what + ": order of files in " + n)
            fl = getattr(hb, '_filelu', None)
            if isinstance(fl, dict):
                eq(dict(fl), dict(mo.l), what + ": lookup")
                eq(list(fl)[:len(old)], old, what + ": order of lookup")
                mo.l = OrderedDict(fl)
        elif k == 'look':
            pass
        elif k in ('save', 'savem', 'savel', 'saved', 'reopen'):
            if k in ('save', 'savem', 'reopen'):
                hb.save_member_bags()
                if loaded('_memberbags'):
                    mo.disk[0] = list(mo.m)
            if k in ('save', 'savel', 'reopen'):
                hb.save_file_lookup()
                if loaded('_filelu'):
                    mo.disk[1] = list(mo.l.items())
            if k in ('save', 'saved', 'reopen'):
                hb.save_deleted()
                mo.disk[2] = sorted(mo.d) or None
                if loaded('_deleted'):
                    eq(os.path.exists(os.path.join(td, 'deleted.txt')) and bool(mo.d), bool(mo.d), what + ": deleted.txt")
            if k == 'reopen':
                hb = mm.HeadBag(bag)
                eq([tuple(x) for x in mo.disk[0] or []], mo.m, what + ": model members saved")
                eq([tuple(x) for x in mo.disk[1] or []], list(mo.l.items()), what + ": model lookup saved")
        elif k == 'listm':
            eq([key(m) for m in hb.member_bags()], mo.m, what)
        elif k == 'listd':
            eq(set(hb.deleted_paths()), mo.d, what)
        elif k == 'files':
            eq(hb.files_in_member(op[1]), [p for p in mo.l if mo.l[p] == op[1]], what)
        # what can be seen without forcing a read of what has not been read yet
        if loaded('_memberbags') or k in ('addm', 'remm'):
            eq([key(m) for m in hb.member_bags()], mo.m, what + ": members")
            eq(hb.member_bag_names, [m[0] for m in mo.m], what + ": member names")
        if loaded('_filelu'):
            for p in PATHS:
                eq(hb.lookup_file(p), mo.l.get(p), what + ": lookup of " + p)
            fl = getattr(hb, '_filelu', None)
            eq(list(fl.items()) if isinstance(fl, dict) else list(mo.l.items()), list(mo.l.items()), what + ": lookup")
        if loaded('_deleted'):
            eq(set(hb.deleted_paths()), mo.d, what + ": deleted paths")
    eq([key(m) for m in hb.member_bags()], mo.m, "members at the end")
    for p in PATHS:
        eq(hb.lookup_file(p), mo.l.get(p), "lookup at the end of " + p)
    for n in NAMES:
        eq(hb.files_in_member(n), [p for p in mo.l if mo.l[p] == n], "files at the end of " + n)
    eq(set(hb.deleted_paths()), mo.d, "deleted paths at the end")
    if case.get('mem'):
        return
    hb.save_member_bags()
    hb.save_file_lookup()
    hb.save_deleted()
    h2 = mm.HeadBag(bag)
    eq([key(m) for m in h2.member_bags()], mo.m, "members saved")
    eq([list(x) for x in (h2.iter_file_lookup() if os.path.exists(os.path.join(td, 'file-lookup.tsv')) else [])],
       [list(x) for x in mo.l.items()], "lookup saved")
    eq(set(h2.deleted_paths()), mo.d, "deleted paths saved")
    raw = os.path.join(td, 'deleted.txt')
    if os.path.exists(raw):
        eq(sorted(l for l in open(raw).read().split('\n') if l), sorted(mo.d), "deleted.txt")
    loc = set(os.listdir(bag)) - {'multibag'}
    eq(loc, {'bagit.txt', 'bag-info.txt', 'manifest-md5.txt', 'meta.txt', 'data'}, "files in the bag")
