"""C03 the Earley recogniser."""
from rules import *
from props.gram import *
from props.ear import *

LEVEL = 'proof'
EXPLAIN = ('Scanning, prediction and completion of an arbitrary item are summarised from MIR and compared with their definitions over arbitrary item sets and grammars; the loop of close_state is reduced to derivation rules, '
           'accepted as a least fixed point only when it repeats exactly while something new arises, and the rules compared with prediction and completion; the parser is summarised with those operations as given and '
           'its item sets, its early return and its acceptance compared with the recurrence that defines them.')
TECHNIQUE = 'loop and path summaries from MIR compared with the Earley recurrence: one-step derivation rules, recurrence over the tokens, acceptance; no execution, no solver'


def ops(a):
    I, b = Items(a), Gram(a)
    s, h, tok, prev, g = SYM('item'), SYM('tree'), SYM('token'), SYM('prev'), SYM('g')
    KIND[prev] = 'vec'
    n = ES + '::scan'
    S = a.S(n, TREES, [s, h, tok])
    c, ps, _, _ = I.scan(s, tok)
    a.iff('an item scans exactly the tokens of the kind after its dot', n, some_guard(S.val), c)
    r = unsome(restrict(S.val, some_guard(S.val)))
    a.same('scanning advances the dot by one', n, I.cursor(r), ps, cond=c)
    a.same('scanning keeps the origin', n, I.origin(r), I.origin(s), cond=c)
    a.no_panic('scanning never panics', S)
    n = ES + '::predict'
    S = a.S(n, TREES, [s, g, prev])
    q = SYM('anyitem')
    want, known = I.predicted(s, b, g, prev, lambda c, o: TUP(c, o))
    got = cmap(a.collect(S.val), I.keyof)
    a.iff('prediction starts every production of the nonterminal after the dot, here, and nothing else', n, has(setof(as_pieces(got)), q), has(setof(want), q), cond=known)
    a.no_panic('prediction never panics', S, cond=known)
    n = ES + '::complete'
    curr = SYM('curr')
    KIND[curr] = 'set'
    S = a.S(n, dict(SETS, **TREES), [s, h, prev, curr])
    inv = invariant(a, I, s, prev)
    want = I.completed(s, prev, curr, lambda t, c: TUP(c, I.origin(t)))
    got = cmap(a.collect(S.val), I.keyof)
    a.iff('completion advances exactly the items of the origin set that wait for the completed nonterminal', n, has(setof(as_pieces(got)), q), has(setof(want), q), cond=inv)
    a.no_panic('completion never panics', S, cond=inv)


def invariant(a, I, s, prev):
    """what holds of every item: it does not start in the future, and the start production is never complete, as the end of the stream is never passed (C12)"""
    o = I.origin(s)
    ak = strip(a.app(PS + '::action_key', I.cursor(s)))
    base = some_guard(a.app(SG + 'StartActionKey::as_base', ak))
    return AND(le0(TM.sub(o, length(prev))), OR(NOT(I.done(I.cursor(s))), base))


def kept(a):
    """the operations keep the invariant"""
    I, b = Items(a), Gram(a)
    s, h, tok, prev, g = SYM('item'), SYM('tree'), SYM('token'), SYM('prev'), SYM('g')
    KIND[prev] = 'vec'
    n = ES + '::scan'
    S = a.S(n, TREES, [s, h, tok])
    c, e, _ = I.step(I.cursor(s))
    t, x = I.term(e)
    a.never('the end of the stream is never passed', n, AND(some_guard(S.val), c, t, I.stream(x)[0]))
    r = unsome(restrict(S.val, some_guard(S.val)))
    a.iff('an item has one node for each element passed (scanning)', n, ieq(length(I.value(r)), TM.add(length(I.value(s)), INT(1))), 1, cond=some_guard(S.val))
    x = SYM('curr')
    KIND[x] = 'set'
    for n, S in ((ES + '::predict', a.S(ES + '::predict', TREES, [s, g, prev])), (ES + '::complete', a.S(ES + '::complete', dict(SETS, **TREES), [s, h, prev, x]))):
        bad = 0
        for it, und in pieces_of(as_pieces(a.collect(S.val))):
            els = [t for t in [w.a[0] for w in und] if t.a[0] is x or t.a[0].k in ('idx', 'coll', 'phi')] if n.endswith('complete') else []
            want = TM.add(length(I.value(els[-1])), INT(1)) if els else INT(0)
            bad = OR(bad, AND(it.a[0], NOT(ieq(length(I.value(it.a[1])), want))))
        a.never('an item has one node for each element passed (%s)' % n.split('::')[-1], n, bad)
    f = a.app(PS + '::from_start', SYM('prod'))
    a.never('a new item has not passed anything', PS + '::from_start', AND(I.done(f), nonempty(b.elems(SYM('prod')))))


def pieces_of(ps, under=()):
    for p in ps:
        if p.k == 'for':
            yield from pieces_of(p.a[3], under + (p,))
        elif p.k == 'item':
            yield p, under
        else:
            raise Unsupported('piece %s' % p.k)


def states(a, I):
    q = SYM('anyitem')
    m = SYM('items')
    KIND[m] = 'map'
    S0 = AGG(ESS, 0, (m,))
    n = ESS + '::states'
    x = mk('elem', m, 0)
    got = a.collect(a.app(n, S0))
    a.iff('the items of a set are its entries', n, has(setof(as_pieces(got)), q), has(setof([forp(x, m, 0, items(I.item(proj(x, '()', 0, 0), proj(x, '()', 0, 1))))]), q))


def sets(a):
    I = Items(a)
    q = SYM('anyitem')
    m = SYM('items')
    KIND[m] = 'map'
    S0 = AGG(ESS, 0, (m,)) if len(a.p.adts[ESS]['variants'][0]['fields']) == 1 else None
    if S0 is None:
        raise Missing('item sets are maps from item to nodes')
    states(a, I)
    n = ESS + '::is_empty'
    a.iff('a set is empty when it has no items', n, truth(a.app(n, S0)), NOT(nonempty(m)))
    for n in (ESS + '::new', a.impl(ESS, 'std::default::Default', 'default')):
        a.same('a new set is empty', n, I.map(a.app(n)), EMPTYC('map'))
    n = ESS + '::insert'
    st = SYM('item')
    tr = {TR + 'Node::add_all': merged}
    S = a.S(n, tr, [mk('sym', 'set'), st])
    post = I.map(strip(mget(S.mem, ('P', SYM('set')))))
    pre = I.map(SYM('set'))
    k = SYM('anykey')
    a.iff('inserting adds the item and keeps all others', n, has(post, k), OR(has(pre, k), TM.eq(k, I.key(st))))
    a.iff('an item that was not there is a change', n, AND(is_variant(S.val, WCH, cvar(a, 'Changed')), NOT(has(pre, I.key(st)))), NOT(has(pre, I.key(st))))
    a.same('an item that was not there has the nodes it is inserted with', n, restrict(load(post, I.key(st)), NOT(has(pre, I.key(st)))), I.value(st), cond=NOT(has(pre, I.key(st))))
    a.no_panic('inserting never panics', S, cond=OR(NOT(has(pre, I.key(st))), ieq(length(load(pre, I.key(st))), length(I.value(st)))))
    for n in ('new_start', 'shift'):
        pass


def cvar(a, n):
    return [v['name'] for v in a.p.adts[WCH]['variants']].index(n)


def merged(M, c, a, i):
    return call('merged', tuple(vals(M, c, x) for x in a))


def one_start(a, b, g, snt):
    """in a wrapped grammar the start symbol is Start, and its rule has a single production (C12)"""
    ty = SG + 'StartNonTerminal'
    s = AGG(ty, evar(a, ty, 'Start'), ())
    ps = b.prods(b.rule(g, load(b.map(g), s)))
    src = [p.a[1] for p in as_pieces(ps) if p.k == 'for']
    if len(src) != 1:
        raise Missing('productions of a rule: %s' % show(ps)[:300])

    def f(t):
        t = TM.replace_term(t, snt, s)
        one = coll('vec', None, items(SYM('only')))
        t = TM.replace_term(t, src[0], one)
        for c in calls_in(t, 'take'):
            if c.a[1][0] is one and c.a[1][1].k == 'int' and c.a[1][1].a[0] >= 1:
                t = TM.replace_term(t, c, one)
        return t
    return f


def starts(a):
    I, b = Items(a), Gram(a)
    g, h, tok, st = SYM('g'), SYM('tree'), SYM('token'), SYM('set')
    KIND[st] = 'set'
    q = SYM('anyitem')
    n = ESS + '::new_start'
    S = a.S(n, SETS, [g])
    M = b.map(g)
    snt = strip(a.app(GR + '::start_nt', g))
    known = has(M, snt)
    want = cmap(b.prods(b.rule(g, load(M, snt))), lambda p: TUP(strip(a.app(PS + '::from_start', p)), INT(0)))
    got = cmap(a.collect(mk('it', 'src', S.val)), I.keyof)
    wrapped = one_start(a, b, g, snt)
    got, want = wrapped(got), wrapped(want)
    a.iff('the first set starts the productions of the start symbol at the beginning', n, has(setof(as_pieces(got)), q), has(setof(as_pieces(want)), q), cond=truth(wrapped(BOOL(known))))
    for gd, w, f, _ in S.panics:
        a.never('making the first set never panics', n, AND(truth(wrapped(BOOL(gd))), truth(wrapped(BOOL(known)))), 'panic (%s) in %s when %s' % (w, f, show_bdd(gd)[:400]))
    n = ESS + '::shift'
    S = a.S(n, dict(SETS, **TREES), [st, h, tok])
    x = mk('elem', st, 0)
    c, ps, _, _ = I.scan(x, tok)
    got = cmap(a.collect(mk('it', 'src', S.val)), I.keyof)
    a.iff('shifting a token scans it with every item', n, has(setof(as_pieces(got)), q), has(setof([forp(x, st, 0, [mk('item', c, TUP(ps, I.origin(x)))])]), q))
    a.no_panic('shifting never panics', S)


def accept(a):
    I = Items(a)
    n = ESS + '::get_final'
    m = SYM('items')
    KIND[m] = 'map'
    S = a.S(n, None, [AGG(ESS, 0, (m,))])
    x = mk('elem', m, 0)
    it = lambda e: I.item(proj(e, '()', 0, 0), proj(e, '()', 0, 1))
    # such an item has passed one element (C12) and so has one node
    one = one_node(a, I, S, m, it)
    a.iff('a set accepts exactly when an item has only the end of the stream after its dot', n, some_guard(S.val), exists(x, m, 0, I.final(it(x))), cond=one)
    a.no_panic('accepting never panics', S, cond=one)


def one_node(a, I, S, m, it):
    """items with the end of the stream after the dot have one node"""
    c = 1
    for g in [BOOL(p[0]) if isinstance(p[0], int) else p[0] for p in S.panics] + [S.val]:
        for t in subterms(g):
            if t.k in ('first', 'elem') and t.a[0 if t.k == 'elem' else 1] is m:
                c = AND(c, ieq(length(I.value(it(t))), INT(1)))
    return c


def closing(a):
    I, b = Items(a), Gram(a)
    f = EA + 'close_state'
    g, h, prev, st = SYM('g'), SYM('tree'), SYM('prev'), SYM('set')
    KIND[prev], KIND[st] = 'vec', 'set'
    S = a.S(f, dict(SETS, **TREES), [g, h, prev, st])
    best = [L.fixed for L in S.flog if L.solved and len([1 for mu, ps in L.fixed.grow.values() if ps]) == 1]
    if not a.ob('items are added until nothing new arises', len(best) == 1, f, '; '.join('%s' % (L.fixed.why,) for L in S.flog) or 'no loop'):
        return
    F = best[0]
    mu, ps = [(mu, ps) for mu, ps in F.grow.values() if ps][0]
    k = [k for k in F.grow if F.grow[k][0] is mu][0]
    a.same('closing starts from the set it is given', f, F.leafinit(k), st)
    res = [v for r, v in S.mem.items() if r[0] == 'P']
    a.ob('the set given is the one that is closed', len(res) == 1 and strip(res[0]) is strip(F.fin[mu]), f, str([show(v)[:300] for v in res]))
    q = SYM('anyitem')
    s = first_free(mu)
    inv = invariant(a, I, s, prev)
    pr, known = I.predicted(s, b, g, prev, lambda c, o: TUP(c, o))
    want = [forp(s, mu, 0, list(pr)), forp(s, mu, 0, I.completed(s, prev, mu, lambda t, c: TUP(c, I.origin(t))))]
    got = cmap(setof(ps), I.keyof)
    assumed = lambda ps: under(ps, mu, lambda x: (AND(invariant(a, I, x, prev), I.predicted(x, b, g, prev, lambda c, o: TUP(c, o))[1])))
    a.iff('a round adds exactly what prediction and completion give for the items that are there', f, has(setof(assumed(as_pieces(got))), q), has(setof(assumed(want)), q))
    c = nonempty(st)
    for p in S.panics:
        for t in subterms(p[0]):
            if t.k == 'elem' and t.a[0] in (mu, F.fin[mu]):
                c = AND(c, invariant(a, I, t, prev), I.predicted(t, b, g, prev, lambda c, o: TUP(c, o))[1])
    a.no_panic('closing never panics on a set with items', S, cond=c)


def under(ps, src, cond):
    """pieces with a condition on the elements of src they run over"""
    out = []
    for p in ps:
        if p.k == 'for':
            body = under(p.a[3], src, cond)
            if p.a[1] is src:
                body = TM.guard_pieces(body, cond(p.a[0]))
            q = forp(p.a[0], p.a[1], p.a[2], body)
            if q is not None:
                out.append(q)
        else:
            out.append(p)
    return out


def parsing(a):
    f = EA + 'parse'
    g, h, toks = SYM('g'), SYM('tree'), SYM('tokens')
    KIND[toks] = 'vec'
    S = a.S(f, PARSE, [g, h, toks])
    Ls = [L for L in S.loops if getattr(L, 'fold', False)]
    if not a.ob('one loop goes through the tokens', len(S.loops) == 1 and len(Ls) == 1 and strip(Ls[0].src) is toks, f, '%d loops' % len(S.loops)):
        return
    L = Ls[0]
    closed = lambda prev, s: setv(call('closed', (g, h, prev, s)))
    start = setv(call('start', (g,)))
    sts = [j for j, i in enumerate(L.inits) if kind_of(strip(i)) == 'vec']
    if not a.ob('the loop carries the item sets made so far', len(sts) == 1, f, str([show(i)[:200] for i in L.inits])):
        return
    j = sts[0]
    mu = L.mus[j]
    KIND[mu] = 'vec'
    # other state that is the last set
    m = {mk('idx', mu, TM.sub(length(mu), INT(1))): std.lastof(mu)}
    alt = lambda t: fix(t, m)
    res = lambda t: TM.replace_term(t, mk('idx', L.vals[j], TM.sub(length(L.vals[j]), INT(1))), std.lastof(strip(L.vals[j])))
    # the last set may be kept on its own, beside those before it
    own = [i for i in range(len(L.mus)) if i != j and strip(L.inits[j]) is EMPTYC('vec')]
    if len(own) == 1:
        i = own[0]
        join = lambda d, c: coll('vec', strip(d), items(c))
        first, nexts, before, lastset, end, filled = join(L.inits[j], L.inits[i]), join(L.nexts[j], L.nexts[i]), join(mu, L.mus[i]), L.mus[i], L.vals[i], 1
    else:
        first, nexts, before, lastset, end, filled = L.inits[j], L.nexts[j], mu, std.lastof(mu), std.lastof(strip(L.vals[j])), nonempty(strip(L.vals[j]))
    for i, (w, ini, nx) in enumerate(zip(L.mus, L.inits, L.nexts)):
        if i != j and not own:
            if strip(ini) is std.lastof(strip(L.inits[j])) and strip(nx) is std.lastof(strip(L.nexts[j])):
                m[w] = std.lastof(mu)
    # one set more for every token: the last of them is also the one with the number of the token
    ini, nx = strip(L.inits[j]), strip(L.nexts[j])
    one = lambda v, base: v.k == 'coll' and v.a[1] is base and len(v.a[2]) == 1 and v.a[2][0].k == 'item' and v.a[2][0].a[0] == 1
    numbered = not own and one(ini, None) and one(nx, mu)
    ixx = mk('ix', L.x)
    if numbered:
        m[mk('idx', mu, ixx)] = std.lastof(mu)
    E = EMPTYC('vec')
    a.same('the first set is the closed start set', f, first, coll('vec', None, items(closed(E, start))))
    shifted = setv(call('shift', (lastset, h, L.x)))
    go = nonempty(shifted)
    a.same('each token adds the closed set of what the last set shifts', f, restrict(alt(nexts), go), coll('vec', before, items(closed(before, shifted))), cond=go)
    a.iff('parsing stops at the first token that no item shifts', f, truth(alt(BOOL(L.stop))), NOT(go))
    gs = getattr(L, 'gstop', None)
    if not a.ob('parsing may stop early', gs is not None, f):
        return
    a.iff('parsing returns nothing for an unaccepted token', f, AND(gs, some_guard(S.val)), 0)
    fin = call('final', (end,))
    some = AND(NOT(gs), filled)
    a.same('otherwise the result is what the last set accepts', f, restrict(res(S.val), some), fin, cond=some)
    ne = AND(nonempty(start), 1 if own else nonempty(mu), filled)
    if numbered:
        ne = AND(ne, TM.eq(length(mu), TM.add(ixx, INT(1))))
    a.no_panic('parsing never panics', S, cond=ne)


def fix(t, m):
    for x, y in m.items():
        t = TM.replace_term(t, x, y)
    return t


RULES = [('scanning, prediction, completion', ops), ('invariants', kept), ('item sets', sets), ('first set and shifting', starts), ('acceptance', accept), ('closing', closing), ('parsing', parsing)]
