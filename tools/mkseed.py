"""mkseed.py SPEC.py : SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source of the demonstration).
Builds seeded/<ID>/ after confirming, in a scratch copy of /repo, that tests pass with the change, that the demonstration passes without and
fails with it, and that the edit touches lines of the original repository."""
import sys, os, subprocess, json, shutil, tempfile, re
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID, PROP = ns['ID'], ns['PROP']
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', ID)
work = tempfile.mkdtemp(prefix='seed-')
try:
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'])
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.py', 'w').write("import sys, os\nsys.path.insert(0, os.getcwd())\nimport tempfile, shutil, warnings\nwarnings.simplefilter('ignore')\n"
                                      "D = tempfile.mkdtemp(prefix='demo-')\ntry:\n" +
                                      ''.join('    ' + l + '\n' if l.strip() else '\n' for l in ns['DEMO'].strip('\n').split('\n')) +
                                      "finally:\n    shutil.rmtree(D, ignore_errors=True)\n")
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': PROP, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    r0 = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    print('demo on HEAD:', r0.returncode, r0.stderr[-800:] if r0.returncode else '')
    base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    for f, a, b in ns['EDITS']:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    d = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    open(out + '/patch.diff', 'w').write(d)
    r1 = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    print('demo with patch:', r1.returncode, r1.stderr[-300:])
    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
    for k in range(3):
        subprocess.run(['bash', '/opt/vp/test.sh', work + '/o.json'], capture_output=True)
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        bad = sorted(stable - set(json.load(open(work + '/o.json'))['passed']))
        if not bad:
            break
    print('build', b.returncode, 'failing stable tests:', bad)
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
    # original lines
    for f in set(e[0] for e in ns['EDITS']):
        bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', f], text=True).split('\n')
        lineno = 0
        cur = None
        for l in d.split('\n'):
            m = re.match(r'^\+\+\+ b/(.*)', l)
            if m:
                cur = m.group(1)
            m = re.match(r'^@@ -(\d+)', l)
            if m:
                lineno = int(m.group(1)); continue
            if cur != f or l.startswith('---') or l.startswith('+++'):
                continue
            if l.startswith('-'):
                if not bl[lineno - 1].startswith('^'):
                    print('NOT ORIGINAL:', bl[lineno - 1][:90])
                lineno += 1
            elif l.startswith(' '):
                lineno += 1
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and not bad
    print(ID, 'OK' if ok else 'REJECTED')
    if not ok:
        shutil.rmtree(out)
finally:
    subprocess.call(['git', '-C', '/repo', 'checkout', '--', '.'])
    shutil.rmtree(work, ignore_errors=True)
