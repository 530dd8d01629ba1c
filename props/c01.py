"""C01 identity of parse items."""
from order import *

LEVEL = 'proof'
EXPLAIN = ('The comparison operations of Prod, ProdState, EarleyStateKey and the LALR items are summarised from MIR and must equal the conjunction of production identity (by reference), '
           'dot position and origin; every collection of items keys on exactly these types.')
PS, EK, P = 'state::ProdState', 'parsers::earley::state::EarleyStateKey', 'grammar::base::Prod'


def prod(a):
    E = laws(a, P)
    # the production data behind the accessor
    i = [j for j, f in enumerate(a.p.adts[P]['variants'][0]['fields']) if (lambda t: t[0] == 'adt' and t[1].endswith('cmp_wrappers::RefCompare'))(a.p.ty(f['ty'], {}))]
    a.ob('a production is identified by reference', len(i) == 1, P)
    r = 'grammar::base::cmp_wrappers::RefCompare'
    ER = laws(a, r)
    a.iff('reference identity', r, ER, ptr_eq(proj(X, r, 0, 0), proj(Y, r, 0, 0)))
    if len(i) == 1:
        p, q = proj(X, P, 0, i[0]), proj(Y, P, 0, i[0])
        a.iff('same production exactly when the same production object', P, E, eq(p, q))


def cursor(a):
    E = laws(a, PS)
    p = lambda v: a.app(PS + '::prod', v)
    # dot position: the integer part
    fs = a.p.adts[PS]['variants'][0]['fields']
    ints = [j for j, f in enumerate(fs) if a.p.ty(f['ty'], {}) == ('other', 'usize')]
    a.ob('the dot position is part of the item', len(ints) == 1, PS)
    if len(ints) != 1:
        return
    u, w = proj(X, PS, 0, ints[0]), proj(Y, PS, 0, ints[0])
    UNSIGNED.update((u, w))
    a.iff('same item exactly when same production and same dot position', PS, E, AND(eq(p(X), p(Y)), ieq(u, w)))


def key(a):
    E = laws(a, EK)
    a.iff('same item exactly when same cursor and same origin', EK, E, field_eq(a, EK))
    fs = [a.p.ty(f['ty'], {}) for f in a.p.adts[EK]['variants'][0]['fields']]
    a.ob('an item key has a cursor and an origin', len([t for t in fs if t[0] == 'adt' and t[1] == PS]) == 1 and len([t for t in fs if t == ('other', 'usize')]) == 1, EK, str(fs)[:300])
    ES = 'parsers::earley::state::EarleyState'
    # every comparison of states refines comparison of keys
    got = get_cmp(a, ES)
    E2 = got[0]
    fs = fields(a.p, ES)
    k = [j for j, f in enumerate(a.p.adts[ES]['variants'][0]['fields']) if (lambda t: t[0] == 'adt' and t[1] == EK)(a.p.ty(f['ty'], {}))]
    if a.ob('a state has a key', len(k) == 1, ES):
        a.never('equal states have equal keys', ES, AND(E2, NOT(eq(proj(X, ES, 0, k[0]), proj(Y, ES, 0, k[0])))))


def keyed(a):
    """item collections are keyed by the item identity"""
    SS = 'parsers::earley::state::EarleyStateSet'
    fs = [a.p.ty(f['ty'], {}) for f in a.p.adts[SS]['variants'][0]['fields']]
    ok = any(t[0] == 'adt' and t[1] == 'std::collections::BTreeMap' and t[2][0][0] == 'adt' and t[2][0][1] == EK for t in fs) or any(t[0] == 'adt' and t[1] == 'std::collections::BTreeSet' and t[2][0][0] == 'adt' and t[2][0][1].startswith('parsers::earley::state::') for t in fs)
    a.ob('Earley sets are keyed by the item', ok, SS, str(fs)[:400])
    PSS = 'state::ProdStateSet'
    fs = [a.p.ty(f['ty'], {}) for f in a.p.adts[PSS]['variants'][0]['fields']]
    ok = any(t[0] == 'adt' and t[1] == 'std::collections::BTreeSet' and t[2][0][0] == 'adt' and t[2][0][1] == PS for t in fs)
    a.ob('sets of cursors hold cursors', ok, PSS, str(fs)[:300])
    E = laws(a, PSS)
    a.iff('sets of cursors are equal exactly when they hold the same cursors', PSS, E, field_eq(a, PSS))
    S = a.S(PSS + '::add', None, [mk('sym', 'set'), SYM('item')])
    fi = [j for j, t in enumerate(fs) if t[0] == 'adt' and t[1] == 'std::collections::BTreeSet']
    post = proj(mget(S.mem, ('P', SYM('set'))), PSS, 0, fi[0])
    pre = proj(SYM('set'), PSS, 0, fi[0])
    mark(pre, fs[fi[0]])
    a.ob('adding an item keeps all others and adds exactly it', post is coll('set', pre, items(SYM('item'))), PSS + '::add', show(post))


def lalr(a):
    LP = 'parsers::lalr::ParseState'
    if LP in a.p.adts:
        E = laws(a, LP)
        a.iff('same item exactly when all its parts are the same', LP, E, field_eq(a, LP))


def copies(a):
    for t in (P, PS, EK, 'parsers::earley::state::EarleyState', 'state::ProdStateSet'):
        f = a.impl(t, 'std::clone::Clone', 'clone')
        a.same('a copy is the same item', f, a.app(f, X), X)


RULES = [('production identity', prod), ('cursor identity', cursor), ('item identity', key), ('item collections', keyed), ('LALR items', lalr), ('copies', copies)]
