"""Writes baseline.json: per property, the obligations that pyvc discharges on the current tree (run on the verified tree only)."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
props = sys.argv[1:] or [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
path = os.path.join(HERE, 'baseline.json')
try:
    base = json.load(open(path))
except IOError:
    base = {}
for p in props:
    fd, out = tempfile.mkstemp()
    os.close(fd)
    subprocess.check_call(['python3-vt', os.path.join(HERE, 'pyvc', 'main.py'), p, '--out', out, '--jobs', '8', '--seconds', '1500'])
    r = json.load(open(out))
    os.remove(out)
    base[p] = sorted(set(o['name'] for o in r['obligations'] if o['status'] == 'proved'))
    base.setdefault('inexact', {}).update(r['inexact'])
    bad = [o['name'] for o in r['obligations'] if o['status'] != 'proved']
    print(p, len(base[p]), 'proved', bad, r['errors'], r['seconds'], 's')
json.dump(base, open(path, 'w'), indent=0, sort_keys=True)
