"""C23 closures and searches."""
from rules import *

LEVEL = 'proof'
EXPLAIN = ('The loops of the search functions are reduced from MIR to derivation rules, accepted as least fixed points only if the worklist is exactly what was newly seen and the loop repeats exactly while it is not empty; '
           'the resulting least fixed point, the record of calls to the step function, and for the processor loop one whole round are compared with the definitions, over arbitrary collections and functions.')
BFS, FIX, AFP = 'utils::breadth_first_search', 'utils::fixed_point', 'utils::apply_fixed_point'
FPP = 'utils::FixedPointProcessor::'
PSS = 'state::ProdStateSet'
WCH = 'utils::WasChanged'


def closure_of(init, step):
    """least set with init closed under step"""
    mu = mk('mu', '#', 1, 0)
    KIND[mu] = 'set'
    x = mk('elem', mu, 0)
    inner = strip(step(x))
    y = first_free(inner)
    p = forp(x, mu, 0, [forp(y, inner, 0, items(y))])
    v = mk('lfpv', mk('lfp', (mu,), (init,), (mk('coll', 'set', None, (p,)),)), 0)
    KIND[v] = 'set'
    return v


def calls_once(a, fn, S, f, v):
    """the trace of calls is one call of f for each element of v"""
    tr = [w for r, w in S.mem.items() if r[0] == 'TR']
    x = first_free(v)
    want = coll('vec', None, (forp(x, v, 0, items(TUP(f, x))),))
    a.ob('the step function is called exactly once for each element found', len(tr) == 1 and strip(tr[0]) is want, fn, 'found    %s\n  required %s' % ([show(t)[:900] for t in tr], show(want)[:900]))


def only_loop(a, S, fn, how=None):
    ls = [l for l in S.flog]
    ok = ls and all(l.solved for l in ls[-1:])
    return a.ob('the loop is a least fixed point', ok, fn, '; '.join(str(l.fixed.why) for l in ls) or 'no loop found')


def bfs(a):
    init, f = SYM('initial'), SYM('fn')
    KIND[init] = 'vec'
    S = a.S(BFS, None, [init, f])
    if not only_loop(a, S, BFS):
        return
    x = mk('elem', init, 0)
    want = closure_of(coll('set', None, (forp(x, init, 0, items(x)),)), lambda e: call('apply', (f, e)))
    a.same('the search returns exactly what the step function reaches from the initial items', BFS, S.val, want)
    calls_once(a, BFS, S, f, strip(S.val))
    a.no_panic('the search never panics', S)


def closure(a):
    n = PSS + '::take_closure'
    f = SYM('fn')
    s = SYM('states')
    KIND[s] = 'set'
    S = a.S(n, None, [AGG(PSS, 0, (s,)), f])
    if not only_loop(a, S, n):
        return
    after = [w for r, w in S.mem.items() if r[0] == 'P']
    if not a.ob('the closure changes the set it is taken of', len(after) == 1, n, str([show(w)[:300] for w in after])):
        return
    want = closure_of(s, lambda e: call('apply', (f, e)))
    got = proj(after[0], PSS, 0, 0)
    a.same('the closed set holds exactly what the closing function reaches from the set', n, got, want)
    calls_once(a, n, S, f, strip(got))
    a.no_panic('taking the closure never panics', S)
    e = a.app(PSS + '::new_empty')
    a.same('a new set is empty', PSS + '::new_empty', e, AGG(PSS, 0, (EMPTYC('set'),)))
    q, st = SYM('q'), SYM('state')
    n = PSS + '::add'
    S = a.S(n, None, [AGG(PSS, 0, (s,)), st])
    after = [w for r, w in S.mem.items() if r[0] == 'P']
    if a.ob('adding changes the set', len(after) == 1, n):
        a.iff('adding a state adds that state only', n, has(proj(after[0], PSS, 0, 0), q), OR(has(s, q), truth(BOOL(TM.eq(q, st)))))


def generic(a):
    s, f = SYM('start'), SYM('fn')
    S = a.S(FIX, None, [s, f])
    ls = S.loops
    if not a.ob('one loop repeats the step', len(ls) == 1, FIX, str(len(ls))):
        return
    L = ls[0]
    cur = [(m, i, n) for m, i, n in zip(L.mus, L.inits, L.nexts) if kind_of(i) is None and not (strip(i).k == 'coll')]
    if not a.ob('the loop carries the current value', len(cur) == 1, FIX, str([show(i) for i in L.inits])):
        return
    m, i, n = cur[0]
    step = call('apply', (f, m))
    a.same('the loop starts at the given value', FIX, i, s)
    a.same('each round applies the step function to the current value', FIX, n, step)
    a.iff('the loop repeats exactly while the value does not map to itself', FIX, L.cont, NOT(TM.eq(step, m)))
    v = strip(S.val)
    if v.k == 'call' and v.a[0] == 'apply' and v.a[1][0] is f:
        v = v.a[1][1]     # equal, the loop having stopped
    a.ob('the result is the value at which the loop stopped', v.k == 'loopv' and strip(v.a[0].a[1][v.a[1]]) is s, FIX, show(v)[:400])
    a.no_panic('the fixed point never panics', S)


def processor(a):
    P, M0 = SYM('proc'), SYM('target')
    KIND[M0] = 'map'
    S = a.S(AFP, None, [P, M0])
    ls = [l for l in S.flog]
    if not a.ob('one loop processes keys', len(ls) == 1, AFP, str(len(ls))):
        return
    L = ls[0]
    st = {}
    for m, i, n in zip(L.mus, L.inits, L.nexts):
        if strip(i) is M0:
            st['map'] = (m, i, n)
        elif kind_of(i) in ('set', 'vec') or strip(i).k == 'coll':
            st.setdefault('work', []).append((m, i, n))
    if not a.ob('the loop carries the map and the keys still to be processed', 'map' in st and len(st.get('work', ())) == 1 and len(L.mus) == 2, AFP, str([show(i)[:200] for i in L.inits])):
        return
    (mm, _, mn), (w, wi, wn) = st['map'], st['work'][0]
    q = SYM('anykey')
    as_set = lambda v: coll('set', None, tuple(as_pieces(v)))
    x = mk('elem', M0, 0)
    a.iff('the loop starts with all keys of the map', AFP, has(as_set(wi), q), has(coll('set', None, (forp(x, M0, 0, items(proj(x, '()', 0, 0))),)), q))
    a.iff('the loop repeats exactly while keys are left', AFP, L.cont, nonempty(w))
    # one round: each key processed against the current map, each result merged into it
    k = mk('elem', w, 0)
    out = call(FPP + 'next', (P, k, load(mm, k)))
    KIND[out] = 'vec'
    y = first_free(out)
    k2, v2 = proj(y, '()', 0, 0), proj(y, '()', 0, 1)
    args = (P, load(mm, k2), v2)
    new = AND(has(mm, k2), NOT(is_variant(call(FPP + 'merge', args), WCH, unchanged(a))))
    chg = OR(new, NOT(has(mm, k2)))
    want = coll('map', mm, (forp(k, w, 0, [forp(y, out, 0, [mk('item', has(mm, k2), TUP(k2, call(FPP + 'merge@1', args))), mk('item', NOT(has(mm, k2)), y)])]),))
    pr = SYM('anyentry')
    mn = strip(mn)
    a.ob('a round keeps the map', mn.k == 'coll' and mn.a[1] is mm, AFP, show(mn)[:500])
    facts = lambda c: has(coll('set', None, tuple(strip(c).a[2])), pr)
    a.iff('a round hands every key with its value to the processor and adds or merges every result', AFP, facts(mn), facts(want))
    want = coll('set', None, (forp(k, w, 0, [forp(y, out, 0, [mk('item', chg, k2)])]),))
    a.iff('the next round processes exactly the keys whose value was added or changed', AFP, has(as_set(wn), q), has(want, q))
    # keys to process start from the map, are added together with their entry, and entries are never removed: looking them up never fails
    maps, works = {M0}, set()
    for _ in range(4):
        for l in S.flog + S.loops:
            for x, i in zip(l.mus, l.inits):
                if strip(i) in maps:
                    maps.add(x)
                elif KIND.get(x) == 'set':
                    works.add(x)
    for g, wh, f, stk in S.panics:
        h = g
        for x in maps:
            for y in works:
                h = AND(h, has(x, mk('elem', y, 0)))
        a.never('only keys of the map are looked up', AFP, h)


def unchanged(a):
    for i, v in enumerate(a.p.adts[WCH]['variants']):
        if v['name'] == 'Unchanged':
            return i
    raise Missing(WCH + '::Unchanged')


RULES = [('breadth-first search', bfs), ('state set closure', closure), ('generic fixed point', generic), ('fixed-point processor', processor)]
