"""Contract registration and running."""
import os
import sys
import time
import traceback
import z3
from core import *
from program import *
from interp import Interp
import models

CONTRACTS = []
MODS = ('constants access.bagit access.extended access.multibag validate.base split amend restore validate.headbag validate.member '
        'validate.bag testing.mkdata').split()


class Contract(object):
    def __init__(self, name, props, body, setup, seconds, covers, doc):
        self.name, self.props, self.body, self.setup, self.seconds, self.covers, self.doc = name, props, body, setup, seconds, covers, doc


def contract(name, props, setup=None, seconds=120, covers=('normal',)):
    def d(f):
        CONTRACTS.append(Contract(name, props.split(), f, setup, seconds, covers, (f.__doc__ or '').strip()))
        return f
    return d


class VC(Interp):
    def mod(self, name):
        return self.program.module(self, 'multibag.' + name)

    def get(self, q):
        """a function or class of /repo by its qualified name, e.g. split.SplitPlan.missing"""
        parts = q.split('.')
        for k in range(len(parts) - 1, 0, -1):
            m = None
            if self.program.find('multibag.' + '.'.join(parts[:k])):
                m = self.mod('.'.join(parts[:k]))
            if m is not None:
                break
        else:
            raise Unsupported('no module for ' + q)
        v = m
        for p in parts[k:]:
            if isinstance(v, Module):
                if p not in v.globals:
                    raise Unsupported('%s is not there' % q)
                v = v.globals[p]
            elif isinstance(v, PClass):
                r = v.lookup(p)
                if r is None:
                    raise Unsupported('%s is not there' % q)
                v = r[1]
        return v

    def run(self, fn):
        """('ret', value) or ('raise', exception object)"""
        depth = len(self.stack)
        try:
            return 'ret', fn()
        except PyRaise as ex:
            del self.stack[depth:]
            if os.environ.get('PYVC_RAISE'):
                print('raised', ex.val, ex.val.attrs)
            return 'raise', ex.val

    def do(self, q, *args, **kw):
        """call a function of /repo, its own contract not replacing it"""
        f = self.get(q) if isinstance(q, str) else q
        if isinstance(f, StaticM):
            f = f.f
        if isinstance(f, ClassM):
            f = f.f
        if isinstance(f, Prop):
            f = f.fget
        if isinstance(f, PFunc):
            self.target, self.target_depth = f.qualname, len(self.stack)
        return self.run(lambda: self.call(f, list(args), kw))

    def meth(self, o, name, *args, **kw):
        r = o.cls.lookup(name)
        if r is None:
            raise Unsupported('no method ' + name)
        f = r[1]
        if isinstance(f, Prop):
            f = f.fget
        if isinstance(f, PFunc):
            self.target, self.target_depth = f.qualname, len(self.stack)
        return self.run(lambda: self.call(f, [o] + list(args), kw))

    def is_exc(self, v, *names):
        return any(self.is_sub(v.cls, Builtin(n) if n in self.exc_names else self.get(n)) for n in names)

    def obj(self, q, **attrs):
        o = self.newobj(Obj(self.get(q), attrs))
        o.partial = True
        return o

    def eqt(self, a, b):
        """a == b as a z3 term"""
        return bool_term(self.truth(self.eq(a, b)))

    def ints_in_scope(self, fr):
        return sorted(k for k, v in fr.locals.items() if is_int(v))

    def at(self, lst, j, p=()):
        return self.leaf_at(lst, p, j)

    def same_elems(self, name, l, want, paths=((),)):
        """obligation: the lists have the same elements, position by position"""
        n = int_term(self.length(want))
        self.oblige(name + ' (number)', int_term(self.length(l)) == n)
        if l.segs and want.segs:
            for p in paths:
                self.oblige(name, z3.Implies(z3.And(self.J >= 0, self.J < n), self.at(l, self.J, p) == self.at(want, self.J, p)))

    def cover(self, label='normal'):
        if self.quiet:
            return
        if not self.normal.get(label):
            r = self.check()
            self.normal[label] = r != z3.unsat

    def sstr(self, base='s', *tags):
        return self.fresh(TStr(*tags), base)

    def sint(self, base='i'):
        return self.fresh(TInt, base)

    def sbool(self, base='b'):
        return self.fresh(TBool, base)

    def slist(self, elem, base='l', tags=()):
        return self.newobj(PList([self.fresh_seg(elem, base, tags)]))


def run_contract(c, root=None, seconds=None):
    t0 = time.time()
    e = VC(Program(root or os.environ.get('VERIF_REPO', '/repo')), seconds=seconds or c.seconds)
    models.install(e)
    rep = {'contract': c.name, 'error': None}
    try:
        for m in MODS:
            if e.program.find('multibag.' + m):
                e.mod(m)
        if c.setup:
            c.setup(e)
        e.functions.clear()
        S0 = e.snapshot()

        def body():
            e.restore(S0)
            e.wlogs = []
            c.body(e)
        e.explore(body)
    except Unsupported as ex:
        rep['error'] = 'outside the verified subset: %s' % ex
    except RecursionError:
        rep['error'] = 'recursion limit of the verifier'
    except z3.Z3Exception as ex:
        rep['error'] = 'solver: %s' % str(ex)[:300]
        rep['trace'] = traceback.format_exc()[-1500:]
    except Exception as ex:
        rep['error'] = 'verifier error: %s: %s' % (type(ex).__name__, str(ex)[:300])
        rep['trace'] = traceback.format_exc()[-1500:]
    obls = []
    for n, o in sorted(e.obls.items()):
        st = 'proved'
        detail, model, exact, why = '', None, False, ()
        for b in o.bad:
            if b[0] == 'sat':
                if st != 'refuted' or (b[3] and not exact):
                    st, detail, model, exact, why = 'refuted', b[1] + (' [abstracted: %s]' % ', '.join(b[4][:4]) if b[4] else ''), render(b[2]), b[3], b[4]
            elif st == 'proved':
                st, detail = 'unknown', b[1]
        if st == 'refuted' and not exact and e.gaveup:
            st, detail = 'unknown', 'an invariant was given up for lack of time; ' + detail
        if st == 'proved' and rep['error']:
            st, detail = 'undecided', rep['error']
        obls.append({'name': c.name + ': ' + n, 'status': st, 'detail': detail, 'model': model, 'exact': exact, 'why': [x for x in why if not x.startswith('loop at ')], 'checked': o.ok + len(o.bad)})
    missing = [x for x in c.covers if not e.normal.get(x)]
    if missing and not rep['error']:
        rep['error'] = 'vacuous: %s not reached' % ', '.join(missing)
        for o in obls:
            if o['status'] == 'proved':
                o['status'] = 'undecided'
                o['detail'] = rep['error']
    if not obls and not rep['error']:
        rep['error'] = 'no obligations'
    rep.update(obligations=obls, functions=sorted(e.functions), models=sorted(e.used_models), summaries=sorted(e.used_summaries),
               paths=e.npaths, queries=e.queries, solver_s=round(e.solver_s, 2), seconds=round(time.time() - t0, 2),
               loops=dict((k, len(v)) for k, v in e.loops_inferred.items()), doc=c.doc, covers=dict(e.normal))
    rep['invariants'] = e.loops_inferred
    rep['gaveup'] = e.gaveup
    rep['inexact'] = sorted(e.inexacts)
    return rep


def render(m):
    if m is None:
        return None
    out = {}
    for d in m.decls():
        try:
            v = m[d]
            s = str(v)
            if len(s) < 300:
                out[d.name()] = s
        except Exception:
            pass
        if len(out) > 60:
            break
    return out
