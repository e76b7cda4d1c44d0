"""bounded stand-in for C11: path containment.  Runs as an unprivileged user below a scratch directory."""
import os
from lib import *
from multibag.access import extended, bagit as mb, multibag as mm
import bagit

SEG = ['..', '.', 'data', 'bag', 'bag2', 'bagX', 'secret', 'a', 'sub', '', 'x', '...', '..a', 'bag.txt', 'bagit.txt', 'out']


def gen(rng):
    paths = []
    for i in range(8):
        p = '/'.join(rng.choice(SEG) for j in range(rng.choice([1, 2, 2, 3, 4, 6])))
        if rng.random() < 0.15:
            p = '/' + p
        if rng.random() < 0.1:
            p = '@ROOT@/' + p
        paths.append(p)
    paths += rng.sample(['..', '../bag2/secret', '../bag2', 'data/../../bag2/secret', '../bag/data/a', '../bagX', './data/a', '/etc/passwd',
                         '@BAG@/data/a', '@BAG@2/secret', '../../', 'data/sub/../a', '', '.', 'data//a', '../bag', 'data/a', 'data/sub'], 6)
    return {'paths': paths, 'kind': rng.choice(['rw', 'rw', 'ro']), 'form': rng.choice(['abs', 'abs', 'slash', 'rel']),
            'hard': rng.random() < 0.5}


def check(case, d):
    top = os.path.join(d, 't')
    bag = write_bag(top, {'name': 'bag', 'files': [['data/a', [3, 1]], ['data/sub/b', [4, 1]]], 'info': []})
    write(os.path.join(top, 'bag2/secret'), b'secret')
    write(os.path.join(top, 'bag2/sub/x'), b'secret2')
    write(os.path.join(top, 'bagX'), b'secret3')
    write(os.path.join(top, 'secret'), b'secret4')
    write(os.path.join(d, 'secret'), b'secret5')
    loc = bag
    if case['form'] == 'slash':
        loc = bag + '/'
    elif case['form'] == 'rel':
        os.chdir(top)
        loc = 'bag'
    b = mb.open_bag(loc) if case['kind'] == 'ro' else bagit.Bag(loc)
    b = extended.as_extended(b)
    if case['kind'] == 'rw':
        b.replicate_with_hardlink = case['hard']
    ro = case['kind'] == 'ro'
    for p in case['paths']:
        p = p.replace('@ROOT@', d).replace('@BAG@', bag)
        if ro and p.startswith('/'):
            full = os.path.normpath(bag + p)   # the fs module takes paths as relative to its root
        else:
            full = os.path.normpath(os.path.join(bag, p))
        inside = full == bag or full.startswith(bag + '/')
        for fn, real in (('exists', os.path.exists), ('isfile', os.path.isfile), ('isdir', os.path.isdir)):
            try:
                r = getattr(b, fn)(p)
            except Exception as ex:
                if inside and not ro:
                    raise Bad("%s(%r) raises %s" % (fn, p, type(ex).__name__))
                continue
            if inside:
                if not ro:
                    eq(bool(r), real(full), "%s(%r)" % (fn, p))
            else:
                expect(not r, "%s(%r) is true, but it is outside of the bag", fn, p)
        if not inside or (os.path.isfile(full) and not p.endswith(('/', '/.'))):
            for fn in ('sizeof', 'open_text_file', 'timesfor'):
                try:
                    r = getattr(b, fn)(p)
                except Exception as ex:
                    if inside and not ro:
                        raise Bad("%s(%r) raises %s: %s" % (fn, p, type(ex).__name__, ex))
                    continue
                if fn == 'open_text_file':
                    data = r.read()
                    r.close()
                    if inside:
                        eq(data, open(full).read(), "open_text_file(%r)" % p)
                expect(inside, "%s(%r) gives access to a file outside of the bag", fn, p)
                if fn == 'sizeof':
                    eq(r, os.path.getsize(full), "sizeof(%r)" % p)
        try:
            got = [(x, sorted(y), sorted(z)) for x, y, z in b.walk(p)]
        except Exception as ex:
            if inside and os.path.isdir(full) and not p.startswith('/') and '..' not in p and not ro and '.' not in p.split('/'):
                raise Bad("walk(%r) raises %s: %s" % (p, type(ex).__name__, ex))
        else:
            f2 = os.path.normpath(os.path.join(bag, p.lstrip('/')))    # leading slashes may be taken as relative to the bag
            expect(inside or not got or f2 == bag or f2.startswith(bag + '/'), "walk(%r) walks outside of the bag: %s", p, got)
            for x, y, z in got:
                for f in z:
                    expect(f in ('a', 'b', 'bagit.txt', 'bag-info.txt', 'manifest-md5.txt'), "walk(%r) finds %s", p, f)
        out = os.path.join(d, 'dest', 'o')
        shutil.rmtree(os.path.join(d, 'dest'), ignore_errors=True)
        os.makedirs(out)
        before = snapshot(d)
        try:
            b.replicate(p, out)
        except Exception as ex:
            ok = False
            if inside and os.path.isfile(full) and os.path.isfile(os.path.join(bag, p)) and not ro:
                raise Bad("replicate(%r) raises %s: %s" % (p, type(ex).__name__, ex))
        else:
            ok = True
            expect(inside, "replicate(%r) copies from outside of the bag", p)
        after = snapshot(d)
        strip = lambda s: (dict((k, v) for k, v in s[0].items() if not k.startswith('dest/o/')),
                           set(k for k in s[1] if not k.startswith('dest/o/')))
        expect(strip(before) == strip(after), "replicate(%r) writes outside of the destination: %s", p,
               diffsnap(strip(before), strip(after)))
        for k in after[0]:
            if k.startswith('dest/o/'):
                expect(after[0][k] in [open(os.path.join(bag, q), 'rb').read() for q in tree(bag)],
                       "replicate(%r) copied a file that is not in the bag", p)
        if ok and os.path.isfile(full) and not ro:
            rel = os.path.relpath(full, bag)
            eq(tree(out), {rel: open(full, 'rb').read()}, "what replicate(%r) wrote" % p)
        # a path named by a manifest or a fetch file
        if '\n' in p or not p.strip() or p != p.strip() or re.search(r'\s', p) or p.startswith('*'):
            continue
        if not inside or p.startswith('/'):
            b2 = os.path.join(d, 'd2')
            shutil.rmtree(b2, ignore_errors=True)
            x = write_bag(b2, {'name': 'bag', 'files': [['data/a', [3, 1]]], 'info': []})
            write(os.path.join(b2, 'bag2/secret'), b's')
            q = p if not p.startswith('..') else p
            write(os.path.join(x, 'fetch.txt'), ('http://x.org/y 1 %s\n' % q).encode())
            o = mb.open_bag(x)
            try:
                l = list(o.fetch_entries())
            except bagit.BagError:
                pass
            else:
                raise Bad("fetch.txt naming %r is accepted" % q)
            os.remove(os.path.join(x, 'fetch.txt'))
            write(os.path.join(x, 'manifest-md5.txt'), ('%s %s\n' % ('0' * 32, q)).encode())
            try:
                o = mb.open_bag(x)
            except bagit.BagError:
                pass
            else:
                raise Bad("a manifest naming %r is accepted" % q)
