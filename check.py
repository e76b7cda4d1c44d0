#!/usr/bin/env python3
"""Decides one property:  check.py PROP [--tier quick|thorough]

1. pyvc (the deductive verifier of this directory) generates and discharges the obligations of the
   contracts registered for the property from /repo's current source;
2. the bounded stand-in of the property (harness/p_*.py) runs the real code on generated cases: it
   replays refutations and covers, labelled bounded, what is not under contract.

Exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import os, sys, re, json, time, shutil, subprocess, tempfile, argparse

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = 'python3-vt'
BUDGET = {'quick': dict(seconds=40, cases=100000, procs=6, proof=560, replay=30), 'thorough': dict(seconds=300, cases=10 ** 7, procs=7, proof=900, replay=120)}


def load_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                r = json.loads(line)
                if r.get('property') == prop:
                    out.append(r)
    return out


def baseline(prop):
    """names of the obligations discharged on the verified tree"""
    try:
        return set(json.load(open(os.path.join(HERE, 'baseline.json'))).get(prop, ()))
    except IOError:
        return set()


# of the approximations, those that lose what is known of a collection (the others stand for values the code may well compute)
STRUCTURAL = ('filter of a symbolic list', 'sum of a symbolic list', 'a set as a list', 'sort', 'list equality', 'dict() of a list',
              'lists of numbers as ordered values', 'os.path.join(*list)')


def approximated(o):
    """what a refutation rests on that the verifier only approximates and did not have to on the verified tree"""
    try:
        known = json.load(open(os.path.join(HERE, 'baseline.json'))).get('inexact', {})
    except IOError:
        return ()
    seen = set(x for c in known if o['name'].startswith(c + ': ') for x in known[c])
    return [x for x in o.get('why', ()) if x in STRUCTURAL and x not in seen]


def level(prop):
    try:
        return [c['level'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks'] if c['property'] == prop][0]
    except (IOError, IndexError):
        return 'exploration'


def model_values(refuted):
    strs, nums = set(), set()
    for o in refuted:
        for v in (o.get('model') or {}).values():
            v = str(v)
            if re.match(r'^-?[0-9]+$', v):
                if abs(int(v)) < 10 ** 7:
                    nums.add(int(v))
            elif re.match(r'^"[^"\\\\]{1,40}"$', v):
                strs.add(v[1:-1])
    return {'strs': sorted(strs), 'nums': sorted(nums)}


def standin(prop, seconds, cases, nproc, seed, env, scratch, procs, tag, hint=None):
    runs = []
    t0 = time.time()
    for k in range(nproc):
        o = os.path.join(scratch, '%s%d' % (tag, k))
        os.mkdir(o)
        os.chmod(o, 0o777)
        out = os.path.join(o, 'out.json')
        log = open(os.path.join(scratch, '%s%d.log' % (tag, k)), 'w')
        p = subprocess.Popen([PY, os.path.join(HERE, 'harness', 'run.py'), prop, '--seed', str(seed * 8 + k + 1 - 8), '--cases',
                              str(cases), '--seconds', str(seconds), '--out', out, '--scratch', o] + (['--hint', hint] if hint else []),
                             env=env, stdout=log, stderr=log, cwd=o)
        procs.append(p)
        runs.append((p, out, log.name))
    reports, errors = [], []
    limit = t0 + seconds + 150
    for p, out, log in runs:
        try:
            p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            errors.append('stand-in timed out')
        try:
            reports.append(json.load(open(out)))
        except (IOError, ValueError):
            errors.append('stand-in gave no report: ' + open(log).read()[-500:])
    return reports, errors


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seconds', type=float)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    b = dict(BUDGET[tier])
    if a.seconds:
        b['seconds'] = a.seconds
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    prop = a.prop
    scratch = tempfile.mkdtemp(prefix='mbv-')
    os.chmod(scratch, 0o777)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, 'replay-%s.json' % prop)
    if os.path.exists(replay):
        os.remove(replay)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), VERIF_REPO=REPO,
               PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')
    procs = []
    try:
        pout = os.path.join(scratch, 'proof.json')
        perr = open(os.path.join(scratch, 'proof.log'), 'w')
        proof_p = subprocess.Popen([VT, os.path.join(HERE, 'pyvc', 'main.py'), prop, '--out', pout, '--tier', tier,
                                    '--seconds', str(b['proof'])], env=env, stdout=perr, stderr=perr, cwd=HERE)
        procs.append(proof_p)
        reports, errors = standin(prop, b['seconds'], b['cases'], b['procs'], seed, env, scratch, procs, 'h')
        try:
            proof_p.wait(max(1, t0 + b['proof'] + 60 - time.time()))
        except subprocess.TimeoutExpired:
            proof_p.kill()
        try:
            proof = json.load(open(pout))
        except (IOError, ValueError):
            proof = {'obligations': [], 'errors': ['verifier gave no report: ' + open(perr.name).read()[-1500:]]}
        base = baseline(prop)
        for o in proof['obligations']:
            if o['status'] == 'refuted' and o['name'] not in base:
                o['status'] = 'undecided'
                o['detail'] = 'not an obligation of the verified tree; ' + o.get('detail', '')
            elif o['status'] == 'refuted' and approximated(o):
                # the verifier's approximation, not the code, may be what fails
                o['status'] = 'undecided'
                o['detail'] = 'only under an approximation (%s) that the verified tree does not need; ' % ', '.join(approximated(o)) + o.get('detail', '')
        refuted = [o for o in proof['obligations'] if o['status'] == 'refuted']
        lost = base - set(o['name'] for o in proof['obligations'] if o['status'] == 'proved')
        if (refuted or lost) and not any(r['failures'] for r in reports):
            # a counterexample of the verifier: search for it on the real code with the values of its model
            # (also, without them, when an obligation of the verified tree is not discharged any more)
            hint = os.path.join(scratch, 'hint.json')
            json.dump(model_values(refuted), open(hint, 'w'))
            os.chmod(hint, 0o644)
            more, _ = standin(prop, b['replay'] if refuted else 2 * b['replay'], b['cases'], b['procs'], seed + 1000, env, scratch, procs, 'r', hint)
            reports += more
        findings = load_findings(prop)
        known = []
        for f in findings:
            if f.get('status') != 'known' or not f.get('case'):
                continue
            o = os.path.join(scratch, 'k')
            os.makedirs(o, exist_ok=True)
            os.chmod(o, 0o777)
            rf = os.path.join(o, 'case.json')
            json.dump({'case': f['case']}, open(rf, 'w'))
            os.chmod(rf, 0o644)
            subprocess.call([PY, os.path.join(HERE, 'harness', 'run.py'), prop, '--replay', rf, '--out', os.path.join(o, 'out.json'),
                             '--scratch', o], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=o)
            try:
                r = json.load(open(os.path.join(o, 'out.json')))
            except (IOError, ValueError):
                continue
            if r['failures'] and f['match'] in r['failures'][0]['what']:
                known.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        return decide(prop, tier, seed, b, proof, reports, errors, known, replay, evdir, t0)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, b, proof, reports, errors, known, replay, evdir, t0):
    obs = proof.get('obligations', [])
    refuted = [o for o in obs if o['status'] == 'refuted']
    undecided = [o for o in obs if o['status'] not in ('proved', 'refuted')]
    proved = [o for o in obs if o['status'] == 'proved']
    fails = [f for r in reports for f in r['failures']]
    herr = [r['error'] for r in reports if r.get('error')] + errors
    cases = sum(r['cases'] for r in reports)
    distinct = sum(r['distinct'] for r in reports)
    samples = [s for r in reports for s in r['samples'][:1]][:3]
    lines, rc = [], 0
    imp = [r for r in reports if (r.get('error') or '').startswith('import:')]
    if fails:
        rc = 1
        json.dump({'property': prop, 'kind': 'input', 'case': fails[0]['case'], 'what': fails[0]['what'],
                   'how': '/opt/venv/bin/python harness/run.py %s --replay <this file>' % prop,
                   'failed_obligations': [dict(o, model=o.get('model')) for o in refuted][:5]}, open(replay, 'w'), indent=1)
        lines.append('failing input: ' + fails[0]['what'][:1500])
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
    elif imp and len(imp) == len(reports):
        rc = 1
        json.dump({'property': prop, 'kind': 'import', 'what': imp[0]['error'], 'trace': imp[0].get('trace')}, open(replay, 'w'), indent=1)
        lines.append('the code under test cannot be imported: ' + imp[0]['error'])
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
    elif refuted:
        rc = 1
        json.dump({'property': prop, 'kind': 'obligation', 'obligations': refuted}, open(replay, 'w'), indent=1)
        for o in refuted[:3]:
            lines.append('failed obligation: %s: %s' % (o['name'], o.get('detail', '')))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    lost = sorted(baseline(prop) - set(o['name'] for o in proved))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level(prop),
          'coverage': {'obligations': len(obs), 'discharged': len(proved),
                       'checker_cmd': 'python3-vt pyvc/main.py %s -v' % prop, 'back_end': proof.get('backend', '?'),
                       'solver_s': proof.get('solver_s', 0), 'solver_queries': proof.get('queries', 0), 'paths': proof.get('paths', 0),
                       'loops_with_inferred_invariants': proof.get('loops', 0),
                       'functions_under_contract': proof.get('functions', []),
                       'contracts': proof.get('contracts', []),
                       'obligation_names': sorted(set(o['name'] for o in proved)),
                       'undecided': [{'name': o['name'], 'why': o.get('detail', '')[:300]} for o in undecided],
                       'failed': [o['name'] for o in refuted],
                       'of_the_verified_tree_but_not_discharged_now': lost,
                       'verifier_errors': proof.get('errors', []),
                       'trusted_base': ['pyvc: the symbolic interpreter of /verif/pyvc, its loop-invariant rule and its map/filter laws',
                                        proof.get('backend', 'z3')] + ['library model: ' + m for m in proof.get('models', [])] +
                                       ['contract assumed at a call site: ' + m for m in proof.get('summaries', [])],
                       'bounded_standin': {'label': 'bounded, not counted as proved', 'bound': '%d s x %d processes of generated cases' %
                                           (b['seconds'], b['procs']), 'errors': herr[:3]},
                       'evaluations': cases, 'distinct_nontrivial': distinct,
                       'rule': 'cases of harness/p_%s.py generated from the seed, run on the real code against an independent oracle; '
                               'distinct = different after JSON encoding within one process' % prop.lower(), 'samples': samples},
          'assumptions': ['partial correctness: a return is shown to satisfy the contract, that a loop ends is not shown',
                          'ints are unbounded (as in Python); floats are reals; strings are sequences of code points',
                          'no monkey-patching, no concurrent change of the objects and files a function works on'],
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if rc else 0}
    with open(os.path.join(evdir, prop + '.json'), 'w') as fd:
        json.dump(ev, fd, indent=1)
    for k in known:
        print(k)
    print('%s: %d/%d obligations discharged, %d undecided, %d refuted; bounded stand-in: %d cases, %d failures%s' %
          (prop, len(proved), len(obs), len(undecided), len(refuted), cases, len(fails), ('; errors: %s' % herr[0][:200]) if herr else ''))
    for o in undecided[:20]:
        print('  undecided: %s: %s' % (o['name'], o.get('detail', '')[:200]))
    for x in proof.get('errors', [])[:5]:
        print('  verifier: ' + x[:600])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
