"""C12: constants.Version is the lexicographic order of the numeric fields."""
import ast
from vc import *
from ops import LT_LIST
import strs
from strs import uf

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()


def text(e, base):
    return e.sstr(base)


def nums(e, base):
    """a tuple of whole numbers, any length"""
    l = e.slist(TInt, base)
    l.kind = 'tuple'
    return l


def spec(e, v):
    """the fields a version stands for, as a list"""
    if is_str(v):
        seg = strs.split_atom(e, v.parts[0], '.')[0]
        isint, toint = uf('isint', S, B), uf('str2int', S, I)
        f = SymSeg(e, seg.n, TInt, lambda p, j: z3.If(isint(seg.sel((), j)), toint(seg.sel((), j)), z3.IntVal(-1)))
        return e.newobj(PList([f]))
    return e.newobj(PList(list(v.segs)))


OPS = [('<', ast.Lt), ('<=', ast.LtE), ('>', ast.Gt), ('>=', ast.GtE), ('==', ast.Eq), ('!=', ast.NotEq)]


@contract('Version comparison', 'C12', covers=('str', 'tuple'))
def cmp(e):
    """for every two versions, each a text, a tuple or a Version, the six operators give the order of the field lists"""
    ka, kb = e.choose(2), e.choose(2)
    a = (text if ka == 0 else nums)(e, 'a')
    b = (text if kb == 0 else nums)(e, 'b')
    k, va = e.do('constants.Version', a)
    e.oblige('a text or a tuple of numbers is accepted', k == 'ret')
    side = e.choose(3)          # Version op Version, Version op plain, plain op Version
    vb = b
    if side == 0:
        k, vb = e.do('constants.Version', b)
        e.oblige('a text or a tuple of numbers is accepted', k == 'ret')
    sa, sb = spec(e, a), spec(e, b)
    x, y = (va, vb) if side < 2 else (vb, va)
    if side == 2:
        sa, sb = sb, sa
    la, lb = e.list_value(sa), e.list_value(sb)
    lt, gt, eq = LT_LIST(la, lb), LT_LIST(lb, la), la == lb
    want = {'<': lt, '<=': z3.Or(lt, eq), '>': gt, '>=': z3.Or(gt, eq), '==': eq, '!=': z3.Not(eq)}
    n, op = OPS[e.choose(6)]
    k, r = e.run(lambda: e.compare(op(), x, y))
    e.oblige('%s does not raise' % n, k == 'ret')
    t = e.truth(r)
    e.oblige('%s is the order of the fields' % n, bool_term(t) == want[n])
    e.cover('str' if ka == 0 else 'tuple')


@contract('Version of the text given', 'C12')
def vstr(e):
    """str() of a version made from a text is that text; its fields are as specified"""
    a = text(e, 'a')
    k, va = e.do('constants.Version', a)
    e.oblige('a text is accepted', k == 'ret')
    k, s = e.run(lambda: e.to_str(va))
    e.oblige('str() is the text given', k == 'ret' and is_str(s) and e.entails(str_term(s) == str_term(a)))
    e.cover()


@contract('Version of anything else', 'C12')
def other(e):
    """a number, None, a list or a mapping is refused with TypeError, on construction and in comparisons"""
    o = [lambda: None, lambda: e.sint('n'), lambda: SReal(z3.Real(fresh_name('r'))), lambda: e.slist(TInt), lambda: e.newobj(PDict({})),
         lambda: e.newobj(Obj(Builtin('object')))][e.choose(6)]()
    k, v = e.do('constants.Version', o)
    e.oblige('construction raises TypeError', k == 'raise' and e.is_exc(v, 'TypeError'))
    k, va = e.do('constants.Version', text(e, 'a'))
    n, op = OPS[e.choose(6)]
    k, v = e.run(lambda: e.compare(op(), va, o))
    e.oblige('%s raises TypeError' % n, k == 'raise' and e.is_exc(v, 'TypeError'))
    e.cover()
