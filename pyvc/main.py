"""pyvc: checks the contracts for one property against /repo's current source.

usage: main.py PROP --out FILE [--tier quick|thorough] [--seconds N]     or     main.py --one CONTRACT --out FILE
"""
import argparse
import concurrent.futures
import glob
import importlib.util
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import vc


def load():
    for f in sorted(glob.glob(os.path.join(HERE, '..', 'contracts', '*.py'))):
        spec = importlib.util.spec_from_file_location('ct_' + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = m
        spec.loader.exec_module(m)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--out')
    ap.add_argument('--one')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seconds', type=float, default=240)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    load()
    if a.one:
        c = [c for c in vc.CONTRACTS if c.name == a.one][0]
        rep = vc.run_contract(c, seconds=min(a.seconds, c.seconds * (3 if a.tier == 'thorough' else 1)))
        if a.out:
            json.dump(rep, open(a.out, 'w'))
        else:
            show(rep, True)
        return
    cs = [c for c in vc.CONTRACTS if a.prop in c.props]
    t0 = time.time()
    deadline = t0 + a.seconds

    def one(c):
        out = '%s.%s.part' % (a.out or '/tmp/pyvc.%d' % os.getpid(), c.name.replace('/', '_').replace(' ', '_'))
        left = deadline - time.time()
        if left < 5:
            return {'contract': c.name, 'error': 'no time left', 'obligations': []}
        try:
            subprocess.run([sys.executable, os.path.abspath(__file__), '--one', c.name, '--out', out, '--tier', a.tier, '--seconds', str(left - 3)],
                           timeout=left + 30, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            rep = json.load(open(out))
        except Exception as ex:
            rep = {'contract': c.name, 'error': 'contract run failed: %s' % type(ex).__name__, 'obligations': []}
        try:
            os.unlink(out)
        except OSError:
            pass
        return rep
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        reps = list(ex.map(one, cs))
    obls, fns, mods, sums, errs, inex = [], set(), set(), set(), [], {}
    for r in reps:
        obls += r['obligations']
        if r.get('inexact'):
            inex[r['contract']] = r['inexact']
        fns.update(r.get('functions', ()))
        mods.update(r.get('models', ()))
        sums.update(r.get('summaries', ()))
        if r.get('error'):
            errs.append('%s: %s' % (r['contract'], r['error']))
    res = {'obligations': obls, 'functions': sorted(fns), 'models': sorted(mods), 'summaries': sorted(sums), 'errors': errs, 'inexact': inex,
           'solver_s': round(sum(r.get('solver_s', 0) for r in reps), 2), 'queries': sum(r.get('queries', 0) for r in reps),
           'paths': sum(r.get('paths', 0) for r in reps), 'loops': sum(len(r.get('loops', ())) for r in reps),
           'backend': 'z3 %s' % '.'.join(map(str, vc.z3.get_version())), 'seconds': round(time.time() - t0, 1),
           'contracts': [{k: r.get(k) for k in ('contract', 'error', 'doc', 'paths', 'queries', 'solver_s', 'seconds', 'loops', 'functions', 'covers')} for r in reps]}
    if a.out:
        json.dump(res, open(a.out, 'w'))
    if a.v or not a.out:
        for r in reps:
            show(r, a.v)


def show(r, full=False):
    n = len(r['obligations'])
    p = sum(o['status'] == 'proved' for o in r['obligations'])
    print('%-50s %d/%d proved  paths=%s q=%s %ss %s' % (r['contract'], p, n, r.get('paths'), r.get('queries'), r.get('seconds'), r.get('error') or ''))
    if r.get('trace'):
        print(r['trace'])
    for o in r['obligations']:
        if o['status'] != 'proved':
            print('   %-10s %s | %s %s' % (o['status'], o['name'], o['detail'], ('exact' if o.get('exact') else '')))
            if full and o.get('model'):
                print('       ', {k: v for k, v in list(o['model'].items())[:25]})
    if full:
        for k, v in (r.get('invariants') or {}).items():
            print('   loop', k, v)


main()
