"""C31 grouping and collecting of states and pairs."""
from rules import *

LEVEL = 'proof'
EXPLAIN = ('Every public operation on sets of production states and every grouping helper is summarised from MIR (all paths, loops as folds over an arbitrary source) and compared with its definition over an arbitrary set or sequence: '
           'what is contained, what is yielded and in which order, and what is grouped under which key.')
PS, PSS = 'state::ProdState', 'state::ProdStateSet'
ONLY, PAIRS = 'utils::take_only', 'utils::merge_value_pairs'


def inner(v):
    return proj(v, PSS, 0, 0)


def a_set(name='states'):
    s = SYM(name)
    KIND[s] = 'set'
    return s


def inside(a, v, s):
    """v, knowing that no state of s is past its end (C05)"""
    v = strip(v)

    def at(x):
        E = strip(a.app('grammar::base::Prod::prod_elements', a.app(PS + '::prod', x)))
        j = [k for k in range(len(fields(a.p, PS))) if proj(a.app(PS + '::from_start', SYM('p')), PS, 0, k).k == 'int']
        if len(j) != 1:
            raise Missing('cursor position of ProdState')
        i = proj(x, PS, 0, j[0])
        UNSIGNED.add(i)
        return le(i, length(E))

    def go(ps, g):
        out = []
        for p in ps:
            if p.k == 'for':
                out.append(mk('for', p.a[0], p.a[1], p.a[2], tuple(go(p.a[3], AND(g, at(p.a[0])) if strip(p.a[1]) is s else g))))
            elif p.k in ('item', 'nest') and g != 1:
                out.append(mk(p.k, B.constrain(p.a[0], g), *p.a[1:]))
            else:
                out.append(p)
        return out
    return coll(v.a[0], v.a[1], tuple(go(v.a[2], 1))) if v.k == 'coll' else v


def made(a):
    n = a.impl(PSS, 'std::iter::FromIterator', 'from_iter')
    xs, q = SYM('given'), SYM('q')
    KIND[xs] = 'vec'
    S = a.S(n, None, [xs])
    x = mk('elem', xs, 0)
    a.same('a set made from states holds exactly those', n, inner(S.val), coll('set', None, (forp(x, xs, 0, items(x)),)))
    a.no_panic('making a set never panics', S)
    n = PSS + '::new_empty'
    a.iff('a new set holds nothing', n, nonempty(inner(a.app(n))), 0)
    s, st = a_set(), SYM('state')
    n = PSS + '::add'
    S = a.S(n, None, [AGG(PSS, 0, (s,)), st])
    after = [w for r, w in S.mem.items() if r[0] == 'P']
    if a.ob('adding changes the set', len(after) == 1, n):
        a.iff('adding a state adds that state only', n, has(inner(after[0]), q), OR(has(s, q), TM.eq(q, st)))
    a.no_panic('adding never panics', S)
    n = a.impl(PSS, 'std::clone::Clone', 'clone')
    a.same('a copy holds the same states', n, a.app(n, AGG(PSS, 0, (s,))), AGG(PSS, 0, (s,)))


def complete(a):
    n = PSS + '::complete'
    s = a_set()
    v = AGG(PSS, 0, (s,))
    S = a.S(n, None, [v])
    x = mk('elem', s, 0)
    done = truth(a.app(PS + '::is_complete', x))
    a.same('the complete states are exactly those past their last element, in order', n, inside(a, a.collect(S.val), s), inside(a, coll('vec', None, (forp(x, s, 0, [mk('item', done, x)]),)), s))
    a.no_panic('listing complete states never panics', S)
    a.ob('listing changes nothing', not [r for r in S.mem if r[0] == 'P'], n)


def nexts(a):
    n = PSS + '::nexts'
    s = a_set()
    S = a.S(n, None, [AGG(PSS, 0, (s,))])
    x = mk('elem', s, 0)
    st = a.app(PS + '::next_elem_state', x)
    g, t = some_guard(st), unsome(st)
    e, to = proj(t, '()', 0, 0), proj(t, '()', 0, 1)
    nest = mk('nest', g, e, AGG(PSS, 0, (EMPTYC('set'),)), (mk('item', 1, to),), (PSS, 0, 0, 1))
    flat = mk('nest', g, e, EMPTYC('set'), (mk('item', 1, to),), ())
    grouped = coll('map', None, (forp(x, s, 0, [nest]),))
    got = a.collect(S.val)
    src = got
    if got.k == 'coll' and got.a[1] is None and len(got.a[2]) == 1 and got.a[2][0].k == 'for' and got.a[2][0].a[1].k == 'coll':
        # grouped as plain sets first
        m = coll('map', None, (forp(x, s, 0, [flat]),))
        y = mk('elem', m, 0)
        want = coll('vec', None, (forp(y, m, 0, items(TUP(proj(y, '()', 0, 0), AGG(PSS, 0, (proj(y, '()', 0, 1),))))),))
    else:
        KIND.setdefault(grouped, 'map')
        want = grouped
    a.same('each element that can come next is paired with exactly the states entered by passing it', n, inside(a, src, s), inside(a, want, s))
    a.no_panic('listing successors never panics', S, 1, allow=('overflow',))
    a.ob('listing changes nothing', not [r for r in S.mem if r[0] == 'P'], n)


def only(a):
    xs = SYM('items')
    KIND[xs] = 'vec'
    S = a.S(ONLY, None, [xs])
    ln = length(xs)
    one = AND(le(INT(1), ln), le(ln, INT(1)))
    a.same('the only item is given exactly when there is one and no other', ONLY, S.val, opt(one, index(xs, INT(0))))
    a.no_panic('taking the only item never panics', S)


def pairs(a):
    ps = SYM('pairs')
    KIND[ps] = 'vec'
    S = a.S(PAIRS, None, [ps])
    x = mk('elem', ps, 0)
    a.same('grouping keeps every pair and adds none', PAIRS, S.val,
           coll('map', None, (forp(x, ps, 0, [mk('nest', 1, proj(x, '()', 0, 0), EMPTYC('set'), (mk('item', 1, proj(x, '()', 0, 1)),), ())]),)))
    a.no_panic('grouping never panics', S)


def private(a):
    d = a.p.adts[PSS]
    a.ob('a set of states is only reachable through its operations', not any(f['public'] for f in d['variants'][0]['fields']), PSS)


RULES = [('made', made), ('complete', complete), ('successors', nexts), ('only item', only), ('grouping', pairs), ('encapsulation', private)]
