"""C02 comparison laws for every comparable type of the crate."""
from order import *

LEVEL = 'proof'
EXPLAIN = ('For every type of the crate with PartialEq/Ord, the summaries of eq, partial_cmp and cmp (all paths, from MIR) are evaluated over all '
           'orderings of the components they compare: totality, antisymmetry, transitivity, agreement of the three operations, and that every part of the value takes part.')

CW = 'grammar::base::cmp_wrappers::'
DYN = 'utils::type_map::TypeKeyObjectTrait'
BRK = 'utils::buffer::BufferRangeKey'


def types(a):
    out = []
    for i in a.p.impls:
        if i.get('trait') in ('std::cmp::PartialEq', 'std::cmp::Ord', 'std::cmp::PartialOrd') and i['self'] in a.p.adts and i['self'] not in out:
            out.append(i['self'])
    return sorted(out)


def all_laws(a):
    ts = types(a)
    a.ob('comparable types found', len(ts) >= 35, '-', '%d types' % len(ts))
    for t in ts:
        pre = 1
        if t == CW + 'ParentRef':
            # comparing parts of different parents is a documented panic
            pre = ptr_eq(proj(X, t, 0, 0), proj(Y, t, 0, 0))
        if t == BRK:
            continue
        E = laws(a, t, pre)
        if E is None:
            continue
        a.sites += 1
        if t == CW + 'NoCompare':
            a.iff('wrapped data takes no part in comparisons', t, E, 1)
        elif t == CW + 'ParentRef':
            a.iff('parts of the same parent are equal', t, E, 1, pre)
        elif t in (CW + 'RefCompare', 'parsers::tree::TreeHandle'):
            a.iff('equal exactly when the same object', t, E, ptr_eq(proj(X, t, 0, 0), proj(Y, t, 0, 0)))
        elif t == 'grammar::base::Prod':
            names = [n for n in fields(a.p, t)]
            ref = [n for n in names if (lambda ty: ty[0] == 'adt' and ty[1] == CW + 'RefCompare')(fty(a, t, n))]
            a.ob('a production is identified by reference', len(ref) == 1, t, str(names))
            w = field_eq(a, t, ref)
            a.iff('equal exactly when the same production', t, E, w)
        else:
            a.iff('values differing in any part are unequal, all others equal', t, E, undiscr(field_eq(a, t)))


def fty(a, adt, name):
    for f in a.p.adts[adt]['variants'][0]['fields']:
        if f['name'] == name:
            return a.p.ty(f['ty'], {})


def brk(a):
    E = laws(a, BRK, 0)
    s = lambda v: strip(a.app('utils::buffer::BufferRange::as_str', proj(v, BRK, 0, 0)))
    a.iff('keys compare by their text only', BRK, E, eq(s(X), s(Y)))
    got = get_cmp(a, BRK)
    E, C, P, r = got
    a.iff('keys are ordered by their text', BRK, C.l, AND(NOT(eq(s(X), s(Y))), glt(s(X), s(Y))))


def dyn_laws(a):
    """keys of different types: by type first, then by value"""
    import tmap
    tmap.concrete(a)
    for m, f in (('cmp', 'Ord'), ('partial_cmp', 'PartialOrd'), ('eq', 'PartialEq')):
        nm = a.impl('dyn ' + DYN, 'std::cmp::' + f, m)
        S = a.S(nm, tmap.CONTRACTS, [X, Y])
        c = mk('call', 'KeyOrd', (X, Y))
        v = S.val
        if m == 'cmp':
            a.same('comparing keys is comparing them by type and value', nm, v, c)
        elif m == 'partial_cmp':
            a.same('comparing keys is comparing them by type and value', nm, v, SOME(c))
        else:
            a.iff('comparing keys is comparing them by type and value', nm, truth(v), is_variant(c, ORD, 1))


def hashes(a):
    n = 0
    for i in a.p.impls:
        if i.get('trait') != 'std::hash::Hash' or i['self'] not in a.p.adts:
            continue
        t = i['self']
        n += 1
        f = a.impl(t, 'std::hash::Hash', 'hash')
        S = a.S(f, None, [X, SYM('h')])
        E = get_cmp(a, t)[0]
        for nm, ins, g in S.calls:
            if not nm.endswith('::hash'):
                continue
            u = v = ins[0]
            bad = 1
            while bad:
                # equal values have equal parts
                w = subst(v, {X: Y})
                e = undiscr(discr_eq(v, w)) if v.k == 'discr' else eq(v, w)
                bad = AND(E, NOT(e))
                if v.k != 'fld':
                    break
                v = v.a[0]
                if v is X:
                    break
            a.never('equal values hash alike', f, bad, 'hashes %s, which equal values may differ in' % show(u))
    a.ob('hashable types found', n >= 4, '-', '%d types' % n)


def discr_eq(u, w):
    n = len(NVAR.get(u.a[1], []))
    return OR(*[AND(is_variant(u.a[0], u.a[1], i), is_variant(w.a[0], w.a[1], i)) for i in range(n)])


RULES = [('comparison laws', all_laws), ('text keys', brk), ('keys of different types', dyn_laws), ('hashing', hashes)]
