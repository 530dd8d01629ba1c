"""C04 what parse trees record."""
from rules import *
from props.gram import *
from props.ear import *
import props.c03 as c03
import props.c15 as c15

LEVEL = 'proof'
EXPLAIN = ('The nodes carried by every item are followed through scanning, prediction, completion, shifting, insertion, closing and acceptance, with tree construction as given, and compared with their definitions for arbitrary items, '
           'sets and tokens; the tree constructors are checked to give nodes with exactly the content they were given. The merge of two derivations of one item is compared with its definition; that it joins nodes which may stand '
           'for different tokens is reported as a known finding.')
TECHNIQUE = 'value summaries from MIR: the nodes of each derived item compared with the definition, and the record of merges made by insertion; no execution, no solver'


def nodes(a):
    I, b = Items(a), Gram(a)
    s, h, tok, prev, g, curr = SYM('item'), SYM('tree'), SYM('token'), SYM('prev'), SYM('g'), SYM('curr')
    KIND[prev], KIND[curr] = 'vec', 'set'
    I.value(s)
    q = SYM('anyitem')
    n = ES + '::scan'
    S = a.S(n, TREES, [s, h, tok])
    c, ps, kd, vl = I.scan(s, tok)
    r = unsome(restrict(S.val, some_guard(S.val)))
    leaf_ = call('leaf', (h, kd, vl))
    a.same('scanning adds a leaf with the kind and value of the token', n, I.value(r), coll('vec', I.value(s), items(leaf_)), cond=AND(c, some_guard(S.val)))
    own(a, n, I.value(r), kd, vl)
    n = ES + '::predict'
    S = a.S(n, TREES, [s, g, prev])
    want, known = I.predicted(s, b, g, prev, lambda c, o: TUP(c, o, EMPTYC('vec')))
    a.iff('predicted items have no nodes yet', n, has(setof(as_pieces(cmap(a.collect(S.val), I.full))), q), has(setof(want), q), cond=known)
    n = ES + '::complete'
    S = a.S(n, dict(SETS, **TREES), [s, h, prev, curr])
    inv = c03.invariant(a, I, s, prev)
    want = I.completed(s, prev, curr, lambda t, c: TUP(c, I.origin(t), grown(a, I, h, s, t)))
    a.iff('completion adds to each waiting item a branch with the action and the nodes of the completed item', n, has(setof(as_pieces(cmap(a.collect(S.val), I.full))), q), has(setof(want), q), cond=inv)


def own(a, f, t, kd, vl):
    """leaves are made of the token itself: a terminal of the grammar that equals its kind need not be the same"""
    ls = calls_in(t, 'leaf')
    ok = ls and all(strip(x) is y for l in ls for x, y in zip(l.a[1][1:], (kd, vl)))
    a.ob('leaves are made of the kind and value of the token itself', ok, f, 'made of %s' % '; '.join(show(l)[:300] for l in ls))


def grown(a, I, h, s, t):
    """nodes of t after completing s"""
    ak = strip(a.app(SG + 'StartActionKey::as_base', strip(a.app(PS + '::action_key', I.cursor(s)))))
    node = call('branch', (h, strip(unsome(restrict(ak, some_guard(ak)))), I.value(s)))
    I.value(t)
    return coll('vec', I.value(t), items(node))


def sets(a):
    I, b = Items(a), Gram(a)
    g, h, tok, st = SYM('g'), SYM('tree'), SYM('token'), SYM('set')
    KIND[st] = 'set'
    q = SYM('anyitem')
    n = ESS + '::new_start'
    S = a.S(n, SETS, [g])
    a.never('the first items have no nodes yet', n, exists_(setof(as_pieces(a.collect(mk('it', 'src', S.val)))), lambda x: nonempty(I.value(x))))
    n = ESS + '::shift'
    S = a.S(n, dict(SETS, **TREES), [st, h, tok])
    x = mk('elem', st, 0)
    c, ps, kd, vl = I.scan(x, tok)
    I.value(x)
    want = [forp(x, st, 0, [mk('item', c, TUP(ps, I.origin(x), coll('vec', I.value(x), items(call('leaf', (h, kd, vl))))))])]
    own(a, n, S.val, kd, vl)
    a.iff('shifting keeps the nodes of every item that scans', n, has(setof(as_pieces(cmap(a.collect(mk('it', 'src', S.val)), I.full))), q), has(setof(want), q))
    c03.states(a, I)
    m = SYM('items')
    KIND[m] = 'map'
    n = ESS + '::get_final'
    S = a.S(n, None, [AGG(ESS, 0, (m,))])
    v = strip(unsome(restrict(S.val, some_guard(S.val))))
    src = [t for t in subterms(v) if t.k == 'first' and t.a[1] is m]
    src = src or [t for t in subterms(v) if t.k in ('elem', 'lastelem') and t.a[0] is m]
    ok = len(src) == 1
    if a.ob('the result is a node of an item of the set', ok, n, show(v)[:400]):
        x = src[0]
        it = I.item(proj(x, '()', 0, 0), proj(x, '()', 0, 1))
        one = AND(some_guard(S.val), ieq(length(I.value(it)), INT(1)))
        a.same('the result is the one node of that item', n, v, index(I.value(it), INT(0)), cond=one)
        if x.k == 'first':
            y = x.a[0]
            a.never('that item is accepting', n, AND(x.a[2], NOT(I.final(I.item(proj(y, '()', 0, 0), proj(y, '()', 0, 1))))))


def exists_(v, f):
    def go(ps):
        r = 0
        for p in ps:
            if p.k == 'item':
                r = OR(r, AND(p.a[0], f(p.a[1])))
            elif p.k == 'for':
                r = OR(r, exists(p.a[0], p.a[1], p.a[2], go(p.a[3])))
            else:
                raise Unsupported('piece %s' % p.k)
        return r
    return go(as_pieces(v))


def closing(a):
    I, b = Items(a), Gram(a)
    f = EA + 'close_state'
    g, h, prev, st = SYM('g'), SYM('tree'), SYM('prev'), SYM('set')
    KIND[prev], KIND[st] = 'vec', 'set'
    S = a.S(f, dict(SETS, **TREES), [g, h, prev, st])
    best = [L.fixed for L in S.flog if L.solved and len([1 for mu, ps in L.fixed.grow.values() if ps]) == 1]
    if not a.ob('items are added until nothing new arises', len(best) == 1, f, '; '.join('%s' % (L.fixed.why,) for L in S.flog) or 'no loop'):
        return
    mu, ps = [(mu, ps) for mu, ps in best[0].grow.values() if ps][0]
    q = SYM('anyitem')
    s = first_free(mu)
    I.value(s)
    pr, known = I.predicted(s, b, g, prev, lambda c, o: TUP(c, o, EMPTYC('vec')))
    want = [forp(s, mu, 0, list(pr)), forp(s, mu, 0, I.completed(s, prev, mu, lambda t, c: TUP(c, I.origin(t), grown(a, I, h, s, t))))]
    inv = lambda x: AND(c03.invariant(a, I, x, prev), I.predicted(x, b, g, prev, lambda c, o: TUP(c, o))[1])
    got = cmap(setof(ps), I.full)
    a.iff('closing adds items with the nodes that prediction and completion give them', f, has(setof(c03.under(as_pieces(got), mu, inv)), q), has(setof(c03.under(want, mu, inv)), q))


def merging(a):
    I = Items(a)
    n = ESS + '::insert'
    st = SYM('item')
    S = a.S(n, MERGE, [mk('sym', 'set'), st])
    post, pre = I.map(strip(mget(S.mem, ('P', SYM('set'))))), I.map(SYM('set'))
    k = SYM('anykey')
    new = NOT(has(pre, I.key(st)))
    a.same('a new item gets the nodes it is inserted with', n, restrict(load(post, I.key(st)), new), I.value(st), cond=new)
    other = AND(has(pre, k), NOT(TM.eq(k, I.key(st))))
    a.same('the nodes of other items stay', n, load(post, k), load(pre, k), cond=other)
    old = load(pre, I.key(st))
    KIND[old] = 'vec'
    c = AND(NOT(new), ieq(length(old), length(I.value(st))))
    a.same('the nodes of an item stay when it is derived again', n, restrict(load(post, I.key(st)), c), old, cond=c)
    rec = strip(S.mem.get(('TR',), EMPTYC('vec')))
    z = std.zip2(old, I.value(st)) if hasattr(std, 'zip2') else mk('zip', old, I.value(st))
    x = mk('elem', z, 0)
    x0, x1 = proj(x, '()', 0, 0), proj(x, '()', 0, 1)
    q = SYM('anymerge')
    mg = lambda x, y: is_variant(call('merged', (x, y)), WCH, c03.cvar(a, 'Changed'))
    # both have the same number of nodes: going through both at once, or through one with the position in the other
    y, w = first_free2(I.value(st), old), first_free2(old, I.value(st))
    views = [(x, z, x0, x1), (y, I.value(st), index(old, mk('ix', y)), y), (w, old, w, index(I.value(st), mk('ix', w)))]
    got = has(setof(as_pieces(rec)), q)
    wants = [has(setof([forp(e, src, 0, [mk('item', NOT(new), TUP(STR('add_all'), l, r))])]), q) for e, src, l, r in views]
    chg = is_variant(S.val, WCH, c03.cvar(a, 'Changed'))
    wchg = [OR(new, exists(e, src, 0, mg(l, r))) for e, src, l, r in views]
    cond = OR(new, c)
    best = [i for i, v in enumerate(wants) if not possible(AND(cond, XOR(got, v)))] or [0]
    whole = a.iff('deriving an item again adds the alternatives of its nodes to those it has, position by position', n, got, wants[best[0]], cond=cond)
    best = [i for i, v in enumerate(wchg) if not possible(AND(cond, XOR(chg, v)))] or [0]
    a.iff('insertion reports a change exactly when the item is new or a node got a new alternative', n, chg, wchg[best[0]], cond=cond)
    # nodes of two derivations of one item are known to stand for the same tokens only when there is one of them
    multi = 0
    for p in as_pieces(rec):
        multi = OR(multi, some_item(p))
    lone = le0(TM.sub(length(old), INT(1)))
    a.ob('nodes are merged only when they stand for the same tokens', not possible(AND(multi, c, NOT(lone))), n,
         'two derivations of an item of several elements are merged element by element, though they may divide the tokens differently', key='spans|%s|%s' % (n, 'position by position' if whole else 'other'))


def some_item(p):
    if p.k == 'item':
        return p.a[0]
    if p.k == 'for':
        r = 0
        for q in p.a[3]:
            r = OR(r, some_item(q))
        return exists(p.a[0], p.a[1], p.a[2], r)
    raise Unsupported('record of merges')


RULES = [('nodes of items', nodes), ('nodes of sets', sets), ('nodes in closing', closing), ('merging', merging), ('new parts', c15.news), ('contents', c15.kept)]
