"""CollectMap as a relation between keys and elements (its operations are verified by C22), and passes as opaque results (C09)."""
from rules import *

CM, WCH = 'utils::CollectMap', 'utils::WasChanged'
TOTAL = TM.TOTAL


def changed(M, g):
    vs = [v['name'] for v in M.p.adts[WCH]['variants']]
    return phi([(AGG(WCH, vs.index('Changed'), ()), g), (AGG(WCH, vs.index('Unchanged'), ()), NOT(g))])


def state(M, c, r):
    m = strip(proj(std.content(M, c, r), CM, 0, 0))
    KIND.setdefault(m, 'map')
    return m


def under(m, k):
    t = mk('load', TM.fz(m), k)
    KIND[t] = 'set'
    return t


def write(M, c, r, m, g, k, ps):
    ps = tuple(ps)
    if g and ps:
        M.store(c, std.deepref(M, c, r), AGG(CM, 0, (coll('map', m, (mk('nest', g, k, TOTAL, ps, ()),)),)))


def values(M, c, v, i):
    return strip(std.collect_value(M, c, std.as_iter(M, c, v, i), 'set'))


def insert(M, c, a, i):
    m, k, v = state(M, c, a[0]), strip(a[1]), strip(a[2])
    write(M, c, a[0], m, 1, k, [mk('item', 1, v)])
    return changed(M, NOT(has(under(m, k), v)))


def insert_iter(M, c, a, i):
    m, k = state(M, c, a[0]), strip(a[1])
    vs = values(M, c, a[2], i.argtys[2] if len(i.argtys) > 2 else None)
    return add_all(M, c, a[0], m, k, vs, 1)


def add_all(M, c, r, m, k, vs, g):
    ld = under(m, k)
    ps = as_pieces(vs)
    chg = 0

    def new(p):
        if p.k == 'item':
            return AND(p.a[0], NOT(has(ld, p.a[1])))
        if p.k == 'for':
            return exists(p.a[0], p.a[1], p.a[2], OR(*[new(q) for q in p.a[3]]))
        raise Unsupported('values %s' % p.k)
    chg = OR(*[new(p) for p in ps])
    write(M, c, r, m, g, k, ps)
    return changed(M, AND(g, chg))


def insert_from_key_set(M, c, a, i):
    m, k, s = state(M, c, a[0]), strip(a[1]), strip(a[2])
    # (under the key itself, all of it is there already)
    return add_all(M, c, a[0], m, k, under(m, s), 1)


def into_inner(M, c, a, i):
    return state(M, c, a[0])


def get_pass(M, c, a, i):
    """the result of a pass, or its error (C09)"""
    P = i.targs[-1] if i.targs else None
    n = P[1] if P and P[0] == 'adt' else None
    if n is None:
        raise Unsupported('pass of unknown type %r' % (P,))
    ok = B.var(mk('b', call('pass ok', (STR(n), strip(a[0])))))
    return phi([(AGG(RES, 0, (call('pass', (STR(n), strip(a[0]))),)), ok), (AGG(RES, 1, (call('pass error', (STR(n), strip(a[0]))),)), NOT(ok))])


CONTRACTS = {CM + '::insert': insert, CM + '::insert_iter': insert_iter, CM + '::insert_from_key_set': insert_from_key_set, CM + '::into_inner': into_inner,
             'grammar::passes::PassContext::get_pass': get_pass}
