"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
try:
    NOTE = json.load(open(os.path.join(HERE, 'levels.json')))
except IOError:
    pass
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {'C16': "the equivalence is between the third-party fs library's zip/tar/OS implementations, whose code is outside /repo and outside the "
             "verifier's reach; multibag only hands paths to it, so no contract on multibag's functions expresses or decides it"}
checks = []
for p in props:
    if p['id'] in NA:
        continue
    n = NOTE.get(p['id'], {})
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': n.get('technique', 'contracts discharged by pyvc/z3 on the real source, bounded stand-in for the rest'),
                   'level': n.get('level', 'exploration'),
                   'level_note': n.get('note', 'bounded stand-in: generated cases on the real code against an independent oracle')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && /opt/venv/bin/python -c "import bagit, fs"',
           'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'No hooks in /repo: contracts live in /verif/contracts and are checked against the AST of /repo\'s current source on '
                    'every run. Known findings and fixed defects: known_findings.jsonl.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
