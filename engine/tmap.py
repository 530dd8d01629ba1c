"""Keys of different types (C02, C21)."""
from order import *

T = 'utils::type_map::TypeKeyObjectTrait'


def c_of(M, c, a, i):
    t = i.targs[0] if i.targs else None
    return mk('call', 'typeid', (SYM('tid:' + str(t)),))


def c_asany(M, c, a, i):
    return M.snap(c, a[0])


def c_tid(M, c, a, i):
    v = M.snap(c, a[0])
    return mk('call', 'tidof', (v,))


def c_keyord(M, c, a, i):
    return mk('call', 'KeyOrd', (M.snap(c, a[0]), M.snap(c, a[1])))


def c_downcast(M, c, a, i):
    v = M.snap(c, a[0])
    return opt(eq(mk('call', 'tidof', (v,)), mk('call', 'typeid', (SYM('tid:' + str(i.targs[0])),))), v)


CONTRACTS = {'std::any::TypeId::of': c_of, 'std::any::Any::type_id': c_tid, T + '::as_any': c_asany, T + '::cmp_concrete': c_keyord,
             'dyn std::any::Any::downcast_ref': c_downcast}


def concrete(a):
    """T::cmp_concrete(x, y: &dyn): by type, then by value"""
    f = a.impl('T', T, 'cmp_concrete')
    con = dict(CONTRACTS)
    del con[T + '::cmp_concrete']
    S = a.S(f, con, [X, Y])
    tx = mk('call', 'typeid', (SYM("tid:('param', 'T')"),))
    ty = mk('call', 'tidof', (Y,))
    e = eq(tx, ty)
    l, q, g = ordering(S.val)
    ls = AND(NOT(e), glt(tx, ty))
    gs = AND(NOT(e), NOT(ls))
    # reversed order of types is as good: any total order on types
    by_type = (AND(NOT(e), l) == ls and AND(NOT(e), g) == gs) or (AND(NOT(e), l) == gs and AND(NOT(e), g) == ls)
    a.ob('keys of different types are ordered by their type', by_type and AND(NOT(e), q) == 0, f, show(S.val))
    vl, ve = glt(X, Y), eq(X, Y)
    vg = AND(NOT(ve), NOT(vl))
    vl = AND(vl, NOT(ve))
    by_val = AND(e, q) == AND(e, ve) and ((AND(e, l) == AND(e, vl) and AND(e, g) == AND(e, vg)) or (AND(e, l) == AND(e, vg) and AND(e, g) == AND(e, vl)))
    a.ob('keys of the same type are ordered by their value', by_val, f, show(S.val))
    a.no_panic('comparing keys never panics', S)
    f = a.impl('T', T, 'as_any')
    a.same('a key stands for itself', f, a.app(f, X), X)
