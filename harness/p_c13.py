"""bounded stand-in for C13: validation results against a plain list of records"""
from lib import *
from multibag.validate import base

TYPES = [base.ERROR, base.WARN, base.REC]
TEXT = ['', 'x', '3-Version', '3-Head-Version_single', 'a long label', 'é', '{0}', '%s', '2-Bag', "it's"]


def text(rng):
    strs, nums, nstrs, nnums = hints()
    if nstrs and rng.random() < 0.2:
        return rng.choice(nstrs)
    return rng.choice(TEXT)


def gen(rng):
    ops = []
    for i in range(rng.choice([0, 1, 1, 2, 4, 8, 20])):
        ops.append({'how': rng.choice(['_err', '_warn', '_rec', 'add']), 'type': rng.choice([1, 2, 4]),
                    'passed': rng.choice([True, False, True, False, 1, 0, '', 'yes', None, ['x'], []]),
                    'label': text(rng), 'spec': text(rng), 'ver': rng.choice([None, '0.2', '0.4', '0.3']),
                    'pre': rng.choice([None, None, 'c', ['c', 'd']]),
                    'comm': rng.choice([None, None, 'one', ['a', 'b'], ['a'], [], [1, 2], '', ['', 'x']]), 'tup': rng.random() < 0.3,
                    'reuse': rng.random() < 0.15, 'make': rng.random() < 0.5, 'itype': rng.choice([1, 2, 4])})
    return {'ops': ops, 'want': rng.choice([1, 2, 3, 4, 5, 6, 7, 3, 7])}


def tolist(c):
    if not c:
        return []
    return [c] if isinstance(c, str) else [str(x) for x in c]


def view(i):
    return (i.type, i.label, i.specification, bool(i.passed()), list(i.comments), i.profile_version)


def build(case, res, model):
    last = None
    for o in case['ops']:
        typ = {'_err': 1, '_warn': 2, '_rec': 4}.get(o['how'], o['type'])
        if o['reuse'] and last is not None:
            t = last
            have = list(t.comments)
        elif o['make']:
            t = res._issue(o['label'], o['spec'])
            have = []
        else:
            kw = {'profver': o['ver']} if o['ver'] else {}
            pre = o['pre']
            if isinstance(pre, list) and o['tup']:
                pre = tuple(pre)
            t = base.ValidationIssue(o['label'], o['itype'], o['spec'], bool(o['passed']), pre, **kw)
            eq(view(t), (o['itype'], o['label'], o['spec'], bool(o['passed']), tolist(o['pre']), o['ver'] or base.CURRENT_VERSION), "new issue")
            have = tolist(o['pre'])
        comm = o['comm']
        if isinstance(comm, list) and o['tup']:
            comm = tuple(comm)
        if o['how'] == 'add':
            res._add_issue(t, typ, o['passed'], comm)
        else:
            getattr(res, o['how'])(t, o['passed'], comm)
        eq((t.type, bool(t.passed()), bool(t.failed())), (typ, bool(o['passed']), not o['passed']), "issue just recorded")
        model.append((typ, t.label, t.specification, bool(o['passed']), have + tolist(o['comm']), t.profile_version))
        if o['reuse'] and last is not None:
            expect((t.label, t.specification) == (model[-1][1], model[-1][2]), "issue changed")
        else:
            eq((t.label, t.specification), (o['label'], o['spec']), "label and explanation")
        last = t


def srt(l):
    return sorted(l, key=repr)


def check(case, d):
    res = base.ValidationResults('bag', case['want'])
    model = []
    build(case, res, model)
    for mask in range(8):
        sel = [m for m in model if m[0] & mask]
        for fn, want in (('applied', sel), ('passed', [m for m in sel if m[3]]), ('failed', [m for m in sel if not m[3]])):
            got = [view(i) for i in getattr(res, fn)(mask)]
            eq(srt(got), srt(want), "%s(%d)" % (fn, mask))
            l = getattr(res, fn)(mask)       # what is handed out is the caller's
            if isinstance(l, list):
                l.append(None)
                if len(l) > 1:
                    l.pop(0)
            eq(getattr(res, 'count_' + fn)(mask), len(want), "count_%s(%d)" % (fn, mask))
    for fn in ('applied', 'passed', 'failed'):
        eq(getattr(res, 'count_' + fn)(), len(getattr(res, fn)(base.ALL)), 'count_%s()' % fn)
    good = not [m for m in model if m[0] & case['want'] and not m[3]]
    expect(bool(res.ok()) == good, "ok() is %r with failed tests %s and want=%d", res.ok(), [m[:2] for m in model if not m[3]], case['want'])
    for i in res.applied():
        j = base.ValidationIssue.from_tuple(i.to_tuple())
        eq(view(j), view(i), "issue exported as a tuple and re-imported")
        json.dumps(i.to_json_obj())
        expect(isinstance(i.summary, str) and i.description.startswith(i.summary), "description")
        str(i)

    class V(base.Validator):
        def validate(self, want=base.PROB, results=None):
            out = super(V, self).validate(want, results)
            build(case, out, [])
            return out
    for want in range(1, 8):
        v = V('bag')
        good = not [m for m in model if m[0] & want and not m[3]]
        expect(bool(v.is_valid(want)) == good, "is_valid(%d) is not %s", want, good)
        try:
            v.ensure_valid(want)
        except base.MultibagValidationError as ex:
            expect(not good, "ensure_valid(%d) raises, but is_valid() is true", want)
            eq(srt(view(i) for i in ex.results.applied()), srt(model), "results carried by the error")
            expect(isinstance(str(ex), str), "str() of the error")
            expect(isinstance(ex, base.BagValidationError), "type of the error")
        else:
            expect(good, "ensure_valid(%d) does not raise", want)
    v = V('bag')
    good = not [m for m in model if m[0] & base.PROB and not m[3]]
    expect(bool(v.is_valid()) == good, "is_valid() is not %s", good)
    r0 = base.ValidationResults('bag', base.ALL)
    expect(v.validate(base.ALL, r0) is r0, "validate() does not use the results object given")
    eq(srt(view(i) for i in r0.applied()), srt(model), "results added by validate()")
