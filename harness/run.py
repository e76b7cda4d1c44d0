"""Driver of the bounded stand-ins: python run.py PROP --seed N --cases K --seconds S --out FILE
or python run.py PROP --replay FILE.  Writes a JSON report; never decides the exit code of a check."""
import os, sys, re, json, time, random, argparse, importlib, traceback, tempfile, shutil, signal, faulthandler
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class Hang(BaseException):
    pass


def onalarm(sig, frm):
    raise Hang()


def run_case(mod, case, limit=20):
    """None if the property held, else a description of the failure"""
    import lib
    old = os.getcwd()
    d = lib.Scratch.new()
    os.chdir(d)
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        mod.check(case, d)
        return None
    except lib.Bad as ex:
        return 'property broken: ' + str(ex)
    except Hang:
        return 'does not terminate within %d s' % limit
    except Exception as ex:
        tb = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(REPO + '/') for f in tb):
            where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-5:]))
            return 'unexpected %s: %s (%s)' % (type(ex).__name__, ex, where)
        # the check itself stumbled: over what the code returned or left behind, or over a name that is not there any more
        none = isinstance(ex, (AttributeError, TypeError)) and 'NoneType' in str(ex)
        if none or isinstance(ex, (LookupError, ValueError, FileNotFoundError, NotADirectoryError, IsADirectoryError, FileExistsError)):
            where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))
            return 'unusable result, %s: %s (%s)' % (type(ex).__name__, ex, where)
        raise
    finally:
        signal.alarm(0)
        os.chdir(old)
        for r, ds, fs in os.walk(d):
            for x in ds:
                try:
                    os.chmod(os.path.join(r, x), 0o755)
                except OSError:
                    pass
        shutil.rmtree(d, ignore_errors=True)


def signature(msg):
    """what has to stay the same while shrinking"""
    m = re.match(r'(?:unexpected|unusable result,) (\w+):.*\((.*)\)$', msg, re.S)
    if m:
        return m.group(1) + ' ' + m.group(2).split(' <- ')[0]
    return re.split(r'[0-9:]', msg)[1][:25] if ':' in msg else msg[:12]


def shrink(mod, case, msg, limit=20):
    """greedy removal of list elements as long as the case keeps failing"""
    t0 = time.time()

    def lists(c, path=()):
        if isinstance(c, dict):
            for k in c:
                yield from lists(c[k], path + (k,))
        elif isinstance(c, list):
            yield path
            for i, x in enumerate(c):
                yield from lists(x, path + (i,))

    def get(c, path):
        for k in path:
            c = c[k]
        return c
    changed = True
    while changed and time.time() - t0 < limit:
        changed = False
        for path in list(lists(case)):
            try:
                n = len(get(case, path))
            except (KeyError, IndexError, TypeError):
                continue
            if path and path[-1] == 'algs':
                continue
            if path and isinstance(path[-1], int) and n in (2, 3) and not isinstance(get(case, path)[-1], (list, dict)):
                continue                       # a pair/record, not a collection
            for i in range(n - 1, -1, -1):
                if time.time() - t0 > limit:
                    return case
                c = json.loads(json.dumps(case))
                try:
                    del get(c, path)[i]
                    m = run_case(mod, c, 10)
                    if m and signature(m) == signature(msg):
                        case = c
                        changed = True
                except Exception:
                    pass
    return case


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--cases', type=int, default=200)
    ap.add_argument('--seconds', type=float, default=40)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--hint')
    ap.add_argument('--scratch')
    a = ap.parse_args()
    root = a.scratch or tempfile.mkdtemp(prefix='mbverif-')
    made = None if a.scratch else root
    os.chmod(root, 0o777)
    if os.getuid() == 0:
        try:                                   # an escaped write or removal can then hit nothing that matters
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
    os.environ['HOME'] = root
    tempfile.tempdir = root
    import lib
    lib.Scratch.root = root
    rep = {'prop': a.prop, 'cases': 0, 'distinct': 0, 'failures': [], 'samples': [], 'error': None}
    try:
        try:
            mod = importlib.import_module('p_' + a.prop.lower())
        except Exception as ex:                # the code under test does not even import
            rep['error'] = 'import: %s: %s' % (type(ex).__name__, ex)
            rep['trace'] = traceback.format_exc()
            return
        if a.replay:
            r = json.load(open(a.replay))
            msg = run_case(mod, r['case'], 60)
            rep['cases'] = 1
            if msg:
                rep['failures'].append({'case': r['case'], 'what': msg})
            return
        t0 = time.time()
        seen = set()
        if a.hint:
            h = json.load(open(a.hint))
            lib.add_hints(h['strs'], h['nums'])
        fixed = list(mod.fixed()) if hasattr(mod, 'fixed') else []
        if a.seed % 8 != 1:
            fixed = []
        i = 0
        while (i < a.cases + len(fixed)) and time.time() - t0 < a.seconds:
            rng = random.Random('%s/%d/%d' % (a.prop, a.seed, i))
            case = fixed[i] if i < len(fixed) else mod.gen(rng)
            case = json.loads(json.dumps(case))
            key = json.dumps(case, sort_keys=True)
            try:
                msg = run_case(mod, case)
            except Exception as ex:
                rep['error'] = 'harness: %s: %s' % (type(ex).__name__, ex)
                rep['trace'] = traceback.format_exc()
                i += 1
                continue
            rep['cases'] += 1
            if key not in seen:
                seen.add(key)
            if len(rep['samples']) < 3:
                rep['samples'].append(case)
            i += 1
            if msg:
                small = shrink(mod, case, msg)
                msg2 = run_case(mod, small) or msg
                rep['failures'].append({'case': small, 'what': msg2, 'first': msg})
                if len(rep['failures']) >= 1:
                    break
        rep['distinct'] = len(seen)
    except Exception as ex:
        rep['error'] = 'harness: %s: %s' % (type(ex).__name__, ex)
        rep['trace'] = traceback.format_exc()
    finally:
        s = json.dumps(rep)
        if a.out:
            with open(a.out, 'w') as fd:
                fd.write(s)
        else:
            print(s)
        if made:
            shutil.rmtree(made, ignore_errors=True)


if __name__ == '__main__':
    main()
