"""C22 change tracking."""
from rules import *

LEVEL = 'proof'
EXPLAIN = ('WasChanged, change_iter, change_loop, CollectMap and MergableMap operations are summarised from MIR for symbolic arguments and arbitrary callbacks; '
           'reports and resulting maps are compared extensionally (for an arbitrary key and value) with the required ones.')
WC, CM, MM, VA, VR, VC = 'utils::WasChanged', 'utils::CollectMap', 'utils::mergeables::MergableMap', 'utils::mergeables::Value', 'utils::mergeables::ValueRef', 'utils::mergeables::ValueCow'


def vi(a, adt, name):
    for i, v in enumerate(a.p.adts[adt]['variants']):
        if v['name'] == name:
            return i
    raise Missing('%s::%s' % (adt, name))


def changed(a, v):
    return is_variant(v, WC, vi(a, WC, 'Changed'))


def field(a, adt, name, var=0):
    for i, f in enumerate(a.p.adts[adt]['variants'][var]['fields']):
        if f['name'] == name:
            return i
    raise Missing('%s.%s' % (adt, name))


def reports(a):
    x, y, b = SYM('x'), SYM('y'), SYM('flag')
    f = WC + '::from_changed'
    bv = BOOL(truth(b))
    a.iff('a report is made from its flag', f, changed(a, a.app(f, bv)), truth(b))
    f = WC + '::join'
    a.iff('combined report is changed exactly when one of them is', f, changed(a, a.app(f, x, y)), OR(changed(a, x), changed(a, y)))
    a.no_panic('combining never panics', a.S(f, None, [x, y]))
    f = WC + '::merge'
    S = a.S(f, None, [x, y])
    a.iff('combined report is changed exactly when one of them is', f, changed(a, mget(S.mem, ('P', x))), OR(changed(a, x), changed(a, y)))
    a.no_panic('combining never panics', S)


def iter_(a):
    f = 'utils::change_iter'
    it, fn = SYM('iter'), SYM('visit')
    KIND[it] = 'vec'
    S = a.S(f, None, [it, fn])
    x = mk('elem', it, 0)
    a.iff('reports whether any visit changed something', f, changed(a, S.val), exists(x, it, 0, changed(a, call('apply', (fn, x)))))
    a.same('visits every item once, in order', f, mget(S.mem, ('TR',)), coll('vec', None, (forp(x, it, 0, [mk('item', 1, TUP(fn, x))]),)))
    a.no_panic('iterating does not panic', S)


def loop_(a):
    f = 'utils::change_loop'
    fn = SYM('round')
    S = a.S(f, None, [fn])
    ls = [L for L in S.loops if not getattr(L, 'fold', False)]
    ok = len(ls) == 1
    a.ob('repeats rounds in one loop', ok, f, '%d loops' % len(ls))
    if ok:
        L = ls[0]
        tr = [i for i, m in enumerate(L.mus) if L.nexts[i] is coll('vec', m, (mk('item', 1, TUP(fn)),)) and L.inits[i] is EMPTYC('vec')]
        a.ob('each round calls the function exactly once', len(tr) == 1 and len(L.mus) == 1, f, show(L.nexts[0])[:400])
        a.iff('repeats exactly until a round reports no change', f, L.cont, changed(a, call('apply', (fn,))))
    a.no_panic('looping does not panic', S)


def m_of(a, v):
    fs = a.p.adts[CM]['variants'][0]['fields']
    m = proj(v, CM, 0, 0)
    return m


def pairs(a, rule, f, post, want, q, w, *keys):
    """same pairs (q, w) for an arbitrary key q: one of the given keys, or none of them"""
    other = 1
    for k in keys:
        a.iff(rule, f, subst_bdd(holds(post, q, w), {q: k}), subst_bdd(want, {q: k}))
        other = AND(other, NOT(eq(q, k)))
    a.iff(rule, f, holds(post, q, w), want, other)


def holds(m, q, v):
    return AND(has(m, q), has(load(m, q), v))


def collect(a):
    """pairs held before and after, for an arbitrary key q and value w"""
    m, k, v, q, w = SYM('cmap'), SYM('key'), SYM('value'), SYM('anykey'), SYM('anyvalue')
    M = m_of(a, m)
    KIND[M] = 'map'
    KIND[load(M, k)] = KIND[load(M, q)] = KIND[load(M, SYM('srckey'))] = 'set'
    old = holds(M, q, w)
    f = CM + '::insert'
    S = a.S(f, None, [m, k, v])
    pairs(a, 'adds exactly the given value under the given key', f, m_of(a, mget(S.mem, ('P', m))), OR(old, AND(eq(q, k), eq(w, v))), q, w, k)
    a.iff('reports a change exactly when the map did not hold it', f, changed(a, S.val), NOT(holds(M, k, v)))
    a.no_panic('adding never panics', S)
    f = CM + '::insert_iter'
    vs = SYM('values')
    KIND[vs] = 'vec'
    x = mk('elem', vs, 0)
    S = a.S(f, None, [m, k, vs])
    new = has(coll('set', None, (forp(x, vs, 0, [mk('item', 1, x)]),)), w)
    pairs(a, 'adds exactly the given values under the given key', f, m_of(a, mget(S.mem, ('P', m))), OR(old, AND(eq(q, k), new)), q, w, k)
    want = OR(AND(has(M, k), exists(x, vs, 0, NOT(has(load(M, k), x)))), AND(NOT(has(M, k)), nonempty(vs)))
    a.iff('reports a change exactly when the map did not hold one of them', f, changed(a, S.val), want)
    a.no_panic('adding never panics', S)
    f = CM + '::insert_from_key_set'
    sk = SYM('srckey')
    S = a.S(f, None, [m, k, sk])
    x = mk('elem', load(M, sk), 0)
    pairs(a, 'adds exactly the values of the source key', f, m_of(a, mget(S.mem, ('P', m))), OR(old, AND(eq(q, k), holds(M, sk, w))), q, w, k, sk)
    want = AND(NOT(eq(k, sk)), has(M, sk), OR(AND(has(M, k), exists(x, load(M, sk), 0, NOT(has(load(M, k), x)))), AND(NOT(has(M, k)), nonempty(load(M, sk)))))
    a.iff('reports a change exactly when the map did not hold one of them', f, changed(a, S.val), want)
    a.no_panic('adding never panics', S)


def reading(a):
    m, k = SYM('cmap'), SYM('key')
    M = m_of(a, m)
    KIND[M] = 'map'
    f = CM + '::get'
    a.same('reading gives the set held under the key', f, a.app(f, m, k), opt(has(M, k), load(M, k)))
    f = CM + '::into_inner'
    a.same('the whole map is what was collected', f, a.app(f, m), M)
    f = CM + '::iter'
    v = a.app(f, m)
    a.same('iterating visits every entry', f, v, mk('it', 'src', M) if v.k == 'it' else M)
    for f in (CM + '::new', a.impl(CM, 'std::default::Default', 'default')):
        a.ob('a new map is empty', nonempty(m_of(a, a.app(f))) == 0, f, show(a.app(f)))
    f = CM + '::from_seed'
    a.same('a seeded map holds exactly the seed', f, m_of(a, a.app(f, SYM('seed'))), SYM('seed'))
    pub = [x['name'] for x in a.p.adts[CM]['variants'][0]['fields'] if x['public']]
    a.ob('the map is only changed through its operations', not pub, CM, str(pub))


def mergeable(a):
    m, q = SYM('mmap'), SYM('anykey')
    i = field(a, MM, 'map') if any(f['name'] == 'map' for f in a.p.adts[MM]['variants'][0]['fields']) else 0
    M = proj(m, MM, 0, i)
    KIND[M] = 'map'
    ki, vi_ = field(a, VA, 'key'), field(a, VA, 'value')

    def one(f, arg, key, val):
        S = a.S(f, None, [m, arg])
        P = proj(mget(S.mem, ('P', m)), MM, 0, i)
        a.iff('adding keeps every key and adds the given one', f, has(P, q), OR(has(M, q), eq(q, key)))
        present = has(M, key)
        S2 = S.val
        new = restrict(S2, NOT(present))
        a.iff('a new key is a change', f, changed(a, new), 1, NOT(present))
        # under a known key the stored value merges with the given one, and that report is returned
        old = restrict(S2, present)
        want = restrict(call('utils::mergeables::Mergable::merge', (load(M, key), val)), present)
        a.same('merging into a known key reports what the merge reports', f, old, want, present)
        a.same('a new key holds the given value', f, load(P, key), val, NOT(present))
        got = restrict(load(P, key), present)
        ok = True
        for b, g in branches(got):
            if not (b.k == 'call' and b.a[0] == 'utils::mergeables::Mergable::merge@0' and b.a[1][0] is restrict(load(M, key), AND(g, present)) and b.a[1][1] is restrict(val, AND(g, present))):
                ok = False
        a.ob('a known key holds the merged value', ok, f, show(got)[:600])
        keep = AND(has(M, q), NOT(eq(q, key)))
        a.same('values under other keys stay', f, restrict(load(P, q), keep), restrict(load(M, q), keep), keep)
        a.no_panic('adding never panics', S)
    v = SYM('entry')
    one(MM + '::insert', v, proj(v, VA, 0, ki), proj(v, VA, 0, vi_))
    c = SYM('cow')
    own, bor = vi(a, VC, 'Owned'), vi(a, VC, 'Borrowed')
    o = is_variant(c, VC, own)
    rk, rv = field(a, VR, 'key'), field(a, VR, 'value')
    O, R = proj(c, VC, own, 0), proj(c, VC, bor, 0)
    key = ite(o, proj(O, VA, 0, ki), proj(R, VR, 0, rk))
    val = ite(o, proj(O, VA, 0, vi_), proj(R, VR, 0, rv))
    one(MM + '::insert_cow', c, key, val)
    f = MM + '::get_entry'
    a.same('reading gives the stored entry', f, a.app(f, m, q), opt(has(M, q), AGG(VR, 0, tuple(q if n == 'key' else load(M, q) for n in fields(a.p, VR)))))
    for f in (MM + '::new', a.impl(MM, 'std::default::Default', 'default')):
        a.ob('a new map is empty', nonempty(proj(a.app(f), MM, 0, i)) == 0, f)
    # entry wrappers carry their key and value unchanged
    for (ty, f, arg) in ((VA, 'key', 'key'), (VA, 'value', 'value'), (VR, 'key', 'key'), (VR, 'value', 'value')):
        fn = '%s::%s' % (ty, f)
        a.same('entries show the key and value they hold', fn, a.app(fn, SYM('e')), proj(SYM('e'), ty, 0, field(a, ty, arg)))
    for fn, want in ((VC + '::key', key), (VC + '::value', val)):
        a.same('entries show the key and value they hold', fn, a.app(fn, c), want)
    asval = AGG(VA, 0, tuple(key if n == 'key' else val for n in fields(a.p, VA)))
    asref = AGG(VR, 0, tuple(key if n == 'key' else val for n in fields(a.p, VR)))
    for fn in (VC + '::to_owned', VC + '::into_owned'):
        g = a.app(fn, c)
        a.same('entries show the key and value they hold', fn, proj(g, VA, 0, ki), key)
        a.same('entries show the key and value they hold', fn, proj(g, VA, 0, vi_), val)
    g = a.app(VC + '::as_ref', c)
    a.same('entries show the key and value they hold', VC + '::as_ref', proj(g, VR, 0, rk), key)
    a.same('entries show the key and value they hold', VC + '::as_ref', proj(g, VR, 0, rv), val)
    r = SYM('e')
    g = a.app(VR + '::to_value', r)
    a.same('entries show the key and value they hold', VR + '::to_value', proj(g, VA, 0, ki), proj(r, VR, 0, rk))
    a.same('entries show the key and value they hold', VR + '::to_value', proj(g, VA, 0, vi_), proj(r, VR, 0, rv))
    for ty in (VA, VR, VC):
        f = a.impl(ty, 'std::clone::Clone', 'clone')
        a.same('copies are equal', f, a.app(f, r), r)


RULES = [('combining', reports), ('iterating', iter_), ('looping', loop_), ('collecting map', collect), ('reading', reading), ('mergeable map', mergeable)]
