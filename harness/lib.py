"""Shared helpers of the bounded stand-ins and replay search: case generation, an
independent bag writer and an independent bag checker.  Runs under /opt/venv/bin/python with
/repo first on the path; everything is written below a private scratch directory."""
import os, sys, io, re, ast, json, random, hashlib, shutil, tempfile, warnings, logging, unicodedata
from collections import OrderedDict, Counter
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

HERE = os.path.dirname(os.path.abspath(__file__))
SPECIAL = re.compile(r"^(bagit\.txt|bag-info\.txt|fetch\.txt|(tag)?manifest-\w+\.txt)$")
GENERATED = ["multibag/member-bags.tsv", "multibag/file-lookup.tsv", "multibag/aggregation-info.txt"]


class Bad(Exception):
    """the property does not hold for the case at hand"""


def expect(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)


def eq(got, want, what):
    if got != want:
        raise Bad("%s: got %s, expected %s" % (what, _short(got), _short(want)))


def _short(v):
    s = repr(v)
    return s if len(s) < 600 else s[:600] + '...'


# ---- scratch -----------------------------------------------------------------------------
class Scratch(object):
    root = None

    @classmethod
    def new(cls, prefix='c'):
        return tempfile.mkdtemp(prefix=prefix, dir=cls.root)


def content(spec):
    if isinstance(spec, str):
        return spec.encode('utf-8')
    n, seed = spec
    rnd = random.Random(seed * 7919 + n)
    base = bytes(rnd.randrange(32, 127) for i in range(min(n, 64))) or b''
    return (base * (n // 64 + 1))[:n] if base else b''


def write(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, 'wb') as fd:
        fd.write(data)


def digest(alg, data):
    return hashlib.new(alg, data).hexdigest()


def write_bag(root, spec, retag=False):
    """write the bag described by spec below the directory root; return its path"""
    d = os.path.join(root, spec['name'])
    if not os.path.isdir(os.path.join(d, 'data')):
        os.makedirs(os.path.join(d, 'data'))
    payload = [(p, content(c)) for p, c in spec['files']]
    for p, c in payload:
        write(os.path.join(d, p), c)
    for p in spec.get('dirs', []):
        if not os.path.isdir(os.path.join(d, p)):
            os.makedirs(os.path.join(d, p))
    write(os.path.join(d, 'bagit.txt'),
          ("BagIt-Version: %s\nTag-File-Character-Encoding: UTF-8\n" % spec.get('version', '0.97')).encode())
    info = list(spec.get('info', []))
    if spec.get('oxum', True):
        info.append(['Payload-Oxum', '%d.%d' % (sum(len(c) for p, c in payload), len(payload))])
    if info or spec.get('oxum', True):
        write(os.path.join(d, 'bag-info.txt'), ''.join('%s: %s\n' % (k, v) for k, v in info).encode('utf-8'))
    for p, c in spec.get('tags', []):
        write(os.path.join(d, p), content(c))
    if spec.get('fetch'):
        write(os.path.join(d, 'fetch.txt'), ''.join(l + '\n' for l in spec['fetch']).encode('utf-8'))
    up = str.upper if spec.get('upper') else str
    for alg in spec.get('algs', ['md5']):
        lines = ['%s %s%s\n' % (up(digest(alg, c)), ' ' if spec.get('two') else '', p) for p, c in payload]
        lines += ['%s %s\n' % (h, p) for a, h, p in spec.get('absent', []) if a == alg]
        write(os.path.join(d, 'manifest-%s.txt' % alg), ''.join(lines).encode('utf-8'))
    write_tagmanifests(d, spec.get('talgs', []), spec.get('untagged', []))
    return d


def write_tagmanifests(d, talgs, skip=()):
    tagf = [p for p in sorted(tree(d)) if not p.startswith('data/') and not re.match(r'tagmanifest-\w+\.txt$', p)
            and p not in skip]
    for alg in talgs:
        write(os.path.join(d, 'tagmanifest-%s.txt' % alg),
              ''.join('%s %s\n' % (digest(alg, open(os.path.join(d, p), 'rb').read()), p)
                      for p in tagf).encode('utf-8'))


# ---- looking at directories ----------------------------------------------------------------
def tree(d):
    """map of all files below d to their contents"""
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            rel = os.path.relpath(p, d)
            out[rel] = os.readlink(p).encode() if os.path.islink(p) else open(p, 'rb').read()
    return out


def dirs_of(d):
    out = set()
    for r, ds, fs in os.walk(d):
        for f in ds:
            out.add(os.path.relpath(os.path.join(r, f), d))
    return out


def empty_dirs(d):
    out = set()
    for r, ds, fs in os.walk(d):
        if not ds and not fs:
            out.add(os.path.relpath(r, d))
    return out


def snapshot(d):
    return (tree(d), dirs_of(d))


def diffsnap(a, b):
    out = []
    for k in sorted(set(a[0]) | set(b[0])):
        if a[0].get(k) != b[0].get(k):
            out.append(('removed ' if k not in b[0] else 'created ' if k not in a[0] else 'changed ') + k)
    for k in sorted(a[1] ^ b[1]):
        out.append(('removed dir ' if k in a[1] else 'created dir ') + k)
    return out


def required(d):
    """what a split of the bag in directory d has to distribute"""
    return sorted([p for p in tree(d) if '/' in p or not SPECIAL.match(p)] + list(empty_dirs(d)))


def read_tags(path):
    """an independent reader of bag-info style files: list of [name, value]"""
    out = []
    text = open(path, 'rb').read().decode('utf-8-sig')
    for line in re.split(r'\r\n|\n|\r', text):
        if not line.strip():
            continue
        if line[0] in ' \t' and out:
            out[-1][1] += '\n' + line.strip() if False else line
            continue
        k, v = line.split(':', 1)
        out.append([k.strip(), v.strip()])
    return out


def info_multi(path):
    out = OrderedDict()
    for k, v in read_tags(path):
        out.setdefault(k, []).append(v)
    return out


def read_manifest(path):
    out = OrderedDict()
    for line in open(path, 'rb').read().decode('utf-8').split('\n'):
        if line.strip():
            h, p = line.strip().split(None, 1)
            p = p.lstrip('*')
            expect(p not in out, "%s lists %s twice", path, p)
            out[p] = h
    return out


def manifests(d, kind='manifest'):
    out = {}
    for f in os.listdir(d):
        m = re.match(r'^%s-(\w+)\.txt$' % kind, f)
        if m:
            out[m.group(1)] = read_manifest(os.path.join(d, f))
    return out


def check_bag(d, what='bag', oxum=True, holey=()):
    """an independent check that directory d is a valid bag"""
    t = tree(d)
    expect('bagit.txt' in t, "%s: no bagit.txt", what)
    expect(os.path.isdir(os.path.join(d, 'data')), "%s: no data directory", what)
    mans = manifests(d)
    expect(mans, "%s: no payload manifest", what)
    payload = set(p for p in t if p.startswith('data/'))
    for alg, m in mans.items():
        for p, h in m.items():
            if p in holey:
                continue
            expect(p in t, "%s: %s listed in manifest-%s is missing", what, p, alg)
            expect(digest(alg, t[p]) == h.lower(), "%s: %s checksum of %s is wrong", what, alg, p)
    for p in payload:
        expect(any(p in m for m in mans.values()), "%s: payload file %s not in any manifest", what, p)
    for alg, m in manifests(d, 'tagmanifest').items():
        for p, h in m.items():
            expect(p in t, "%s: %s listed in tagmanifest-%s is missing", what, p, alg)
            expect(digest(alg, t[p]) == h.lower(), "%s: %s checksum of tag file %s is wrong", what, alg, p)
    if oxum and 'bag-info.txt' in t:
        v = info_multi(os.path.join(d, 'bag-info.txt')).get('Payload-Oxum')
        if v:
            eq(v, ['%d.%d' % (sum(len(t[p]) for p in payload), len(payload))], what + ": Payload-Oxum")


def loc_validate(d, what='bag'):
    """validation by the Library of Congress' bagit module (a dependency, not code of the repository)"""
    import bagit
    try:
        bagit.Bag(d).validate()
    except Exception as ex:
        raise Bad("%s is not a valid bag: %s: %s" % (what, type(ex).__name__, ex))


# ---- literals in the current source, as hints for generation -------------------------------
def literals(repo=os.environ.get('VERIF_REPO', '/repo')):
    strs, nums = set(), set()
    for r, ds, fs in os.walk(os.path.join(repo, 'multibag')):
        for f in fs:
            if f.endswith('.py'):
                try:
                    t = ast.parse(open(os.path.join(r, f), encoding='utf-8').read())
                except SyntaxError:
                    continue
                docs = set()
                for n in ast.walk(t):
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                        docs.add(id(n.value))
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and id(n) not in docs:
                        if isinstance(n.value, str) and 0 < len(n.value) <= 40 and '\n' not in n.value:
                            strs.add(n.value)
                        elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and \
                                abs(n.value) < 1e7:
                            nums.add(int(n.value))
    return strs, nums


_base = None


def hints():
    """(all literals, literals that the verified tree did not have)"""
    global _base
    if _base is None:
        strs, nums = literals()
        try:
            b = json.load(open(os.path.join(HERE, 'base_literals.json')))
        except IOError:
            b = {'strs': sorted(strs), 'nums': sorted(nums)}
        _base = (sorted(strs), sorted(nums), sorted(strs - set(b['strs'])), sorted(nums - set(b['nums'])))
    return _base


def add_hints(strs, nums):
    """values of a verifier's counterexample, tried like literals new in the source"""
    global _base
    a, b, c, d = hints()
    _base = (a, b, sorted(set(c) | set(strs)), sorted(set(d) | set(nums)))


def okname(s):
    return bool(s) and s.strip() == s and '/' not in s and '\0' not in s and s not in ('.', '..') and \
        not re.search(r'[\x00-\x1f\x7f\x85\u2028\u2029]', s) and s == unicodedata.normalize('NFC', s) and \
        not s.startswith('~') and '$' not in s and '%' not in s and not s.startswith('*')


WORDS = ['a', 'b', 'c', 'ab', 'a.b', 'a b', 'a-b', 'A', 'z', 'é', '日本', '.hid', '_x', '#h', 'data', 'x.txt', 'y.dat',
         'bagit.txt', 'bag-info.txt', 'fetch.txt', 'manifest-md5.txt', 'tagmanifest-sha1.txt', 'multibag', 'bagit_txt',
         'foo bar.txt', '{0}', "q'", 'b.d', 'deleted.txt', 'member-bags.tsv', 'long-' + 'n' * 40, '0', 'trial1', 'file-lookup.tsv']


def word(rng):
    strs, nums, nstrs, nnums = hints()
    k = rng.random()
    pick = None
    if nstrs and k < 0.15:
        pick = rng.choice(nstrs).strip('/').split('/')[-1]
    elif k < 0.18:
        pick = rng.choice(strs).strip('/').split('/')[-1]
    if pick and okname(pick):
        if rng.random() < 0.4:
            # as the beginning, the end or the inside of a name
            k = rng.choice([pick + rng.choice(WORDS), rng.choice(WORDS) + pick, 'a' + pick + 'b', pick + pick])
            if okname(k):
                return k
        return pick
    return rng.choice(WORDS[:6] if rng.random() < 0.5 else WORDS)


def num(rng, top):
    strs, nums, nstrs, nnums = hints()
    k = rng.random()
    if nnums and k < 0.15:
        v = abs(rng.choice(nnums)) + rng.choice([-1, 0, 0, 1])
    elif k < 0.2:
        v = abs(rng.choice(nums)) + rng.choice([-1, 0, 0, 1])
    else:
        v = rng.choice([0, 1, 2, 3, 5, 10, 10, 17, rng.randrange(0, top + 1)])
    return max(0, min(v, 200000))


def gen_paths(rng, n, top='data', depth=3):
    """n distinct, non-conflicting relative file paths below top"""
    files, dirs = [], set()
    tries = 0
    while len(files) < n and tries < 20 * n + 20:
        tries += 1
        if files and rng.random() < 0.35:
            par = os.path.dirname(rng.choice(files))
        elif dirs and rng.random() < 0.3:
            par = rng.choice(sorted(dirs))
        else:
            par = '/'.join(([top] if top else []) + [word(rng) for i in range(rng.choice([0, 0, 0, 1, 1, 2, depth]))])
        p = (par + '/' if par else '') + word(rng)
        if p in files or p in dirs:
            continue
        anc = []
        q = os.path.dirname(p)
        while q:
            anc.append(q)
            q = os.path.dirname(q)
        if any(a in files for a in anc):
            continue
        files.append(p)
        dirs.update(anc)
    return files


ALGS = ['md5', 'sha1', 'sha256', 'sha512']
INFON = ['Contact-Name', 'External-Identifier', 'Internal-Sender-Identifier', 'Internal-Sender-Description',
         'Bag-Size', 'Bag-Group-Identifier', 'Source-Organization', 'Bagging-Date', 'Bag-Count', 'X-Note', 'Multibag', 'Payload-Note']


def gen_value(rng):
    return rng.choice(['x', 'Gurn Cranston', 'ark:/88434/edi00hw91c', 'a: b', 'é ü', '1.2', '12.34 kB', 'v' * 90,
                       'a, b', '#c', 'word ' * 18 + 'end', '10', 'x\\y', 'http://a.b/c?d=e&f', '{0} %s'])


def gen_info(rng, extra=()):
    out = []
    for k in rng.sample(INFON, rng.randrange(0, 6)):
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            out.append([k, gen_value(rng)])
    strs, nums, nstrs, nnums = hints()
    cand = [s for s in nstrs if re.match(r'^[A-Za-z][A-Za-z0-9-]*$', s) and not s.startswith('Multibag')]
    if cand and rng.random() < 0.4:
        out.append([rng.choice(cand), gen_value(rng)])
    if rng.random() < 0.3:
        rng.shuffle(out)
    return out


NEAR = ['database.txt', 'data.txt', 'dataset/x.txt', 'data2', 'multibag2/x', 'multibag.txt', 'bagit.txt.bak', 'manifest.txt', 'mydata/data/x',
        'manifest-md5.txt.old', 'xmanifest-md5.txt', 'meta/bag-info.txt', 'meta/manifest-md5.txt', 'tag/fetch.txt', 'x/multibag/member-bags.tsv']


def gen_bag(rng, name=None, maxfiles=9, tags=True, top=60, special_tags=True):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, maxfiles, maxfiles, rng.randrange(1, maxfiles * 2)])
    files = gen_paths(rng, n)
    same = num(rng, top)
    fl = [[f, [same if rng.random() < 0.25 else num(rng, top), rng.randrange(1000)]] for f in files]
    used = set(files)
    tg = []
    if tags:
        for p in gen_paths(rng, rng.choice([0, 0, 1, 2, 3]), top='', depth=2):
            if p.split('/')[0] in ('data', 'multibag') or SPECIAL.match(p.split('/')[0]):
                continue
            tg.append([p, [num(rng, top), rng.randrange(1000)]])
            used.add(p)
        if rng.random() < 0.35:
            # names that nearly match the ones with a meaning
            for p in rng.sample(NEAR, rng.choice([1, 1, 2])):
                if not any(q == p or q.startswith(p + '/') or p.startswith(q + '/') for q in used):
                    tg.append([p, [num(rng, top), rng.randrange(1000)]])
                    used.add(p)
    dirs = []
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        p = '/'.join([rng.choice(['data', 'data', 'metadata'])] + [word(rng) for j in range(rng.choice([1, 1, 2]))])
        anc = [p]
        while '/' in anc[-1]:
            anc.append(os.path.dirname(anc[-1]))
        if any(a in used for a in anc) or any(u.startswith(p + '/') for u in used):
            continue
        dirs.append(p)
    algs = rng.sample(ALGS, rng.choice([1, 1, 1, 2, 3]))
    spec = {'name': name or rng.choice(['samp', 'bag.1', 'my bag', 'b-é', 'samplembag', 'data', 'x.mbag', 'bag.zip.d']),
            'files': fl, 'dirs': dirs, 'tags': tg, 'algs': algs,
            'talgs': rng.choice([[], algs, rng.sample(ALGS, 1)]),
            'info': gen_info(rng), 'version': rng.choice(['0.97', '0.97', '1.0']),
            'oxum': rng.random() < 0.8, 'two': rng.random() < 0.3}
    if rng.random() < 0.06:
        spec['upper'] = True
    if tg and rng.random() < 0.3:
        spec['untagged'] = [tg[0][0]]
    return spec


def zip_bag(d, out=None):
    import zipfile
    out = out or d + '.zip'
    root = os.path.dirname(d)
    with zipfile.ZipFile(out, 'w') as z:
        for r, ds, fs in os.walk(d):
            z.write(r, os.path.relpath(r, root) + '/')
            for f in fs:
                z.write(os.path.join(r, f), os.path.relpath(os.path.join(r, f), root))
    return out
