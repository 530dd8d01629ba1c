"""C21 heterogeneous map."""
import tmap
from order import *

LEVEL = 'proof'
EXPLAIN = ('TypeMap operations are summarised from MIR over a symbolic map; results must be the map operations on (type, value) keys, the casts must be to the type that insert stored, '
           'and key comparison must be by type and then by value.')
TM_, KO = 'utils::type_map::TypeMap', 'utils::type_map::TypeKeyObject'


def keys(a):
    tmap.concrete(a)
    for t, f, m in (('dyn ' + tmap.T, 'Ord', 'cmp'), (KO, 'Ord', 'cmp'), (KO, 'PartialOrd', 'partial_cmp'), (KO, 'PartialEq', 'eq'), ('dyn ' + tmap.T, 'PartialEq', 'eq')):
        nm = a.impl(t, 'std::cmp::' + f, m)
        S = a.S(nm, tmap.CONTRACTS, [X, Y])
        x, y = (proj(X, KO, 0, 0), proj(Y, KO, 0, 0)) if t == KO else (X, Y)
        c = mk('call', 'KeyOrd', (x, y)) if t != KO else compare(x, y)
        want = {'cmp': c, 'partial_cmp': SOME(c), 'eq': BOOL(is_variant(c, ORD, 1))}[m]
        a.same('stored keys compare as the keys they hold', nm, S.val, want)
    b = a.impl(KO, 'std::borrow::Borrow', 'borrow')
    a.same('a stored key is looked up as the key it holds', b, a.app(b, X), proj(X, KO, 0, 0))


def val_ty(a):
    f = TM_ + '::insert'
    b = a.body(f)
    return a.p.ty(b['locals'][3]['ty'], {})


def inner(a, v):
    m = proj(v, TM_, 0, 0)
    KIND[m] = 'map'
    return m


def new(a):
    f = TM_ + '::new'
    v = a.app(f)
    a.ob('a new map is empty', nonempty(proj(v, TM_, 0, 0)) == 0, f, show(v))


def insert(a):
    m, k, v = SYM('map'), SYM('key'), SYM('val')
    f = TM_ + '::insert'
    S = a.S(f, None, [m, k, v])
    post = proj(mget(S.mem, ('P', m)), TM_, 0, 0)
    want = mapset(inner(a, m), AGG(KO, 0, (k,)), v)
    a.same('storing sets exactly that key', f, post, want)
    a.no_panic('storing never panics', S)


def get(a):
    m, k = SYM('map'), SYM('key')
    vt = val_ty(a)
    for n in ('get', 'get_mut'):
        f = TM_ + '::' + n
        S = a.S(f, None, [m, k])
        M = inner(a, m)
        ld = load(M, k)
        # what is stored under a key has the type of its values: storing is the only way in (see insert)
        typed = B.var(mk('b', mk('istype', ld, str(vt))))
        r = S.val
        if n == 'get_mut':
            hit = some_guard(r)
            a.iff('found exactly when stored', f, hit, has(M, k), typed)
            x = unsome(restrict(r, typed))
            tgt = x.a[0] if x.k == 'ref' else None
            a.ob('the reference is to the stored value', x.k == 'ref' and (tgt == ('P', ld) or (tgt[0] == 'P' and tgt[1] is ld)) and x.a[1] == (), f, show(r))
        else:
            a.same('returns the value stored under that key, or nothing', f, r, opt(has(M, k), ld), typed)
        for g, w, fn, st in S.panics:
            # a failed cast: must be a cast to the stored type
            at = [B.atom_of[v] for v in B.support(g)] if g > 1 else []
            casts = [x for x in at if x.k == 'b' and x.a[0].k == 'istype']
            okc = all(x.a[0].a[1] == str(vt) for x in casts) and casts
            rest = g
            for x in casts:
                rest = B.assign(rest, B.var_of[x], 1)
            a.ob('look-ups never panic', bool(okc) and rest == 0, f, '%s: cast to %s, stored %s' % (w, [x.a[0].a[1][:60] for x in casts], str(vt)[:80]))
        a.ob('looking up changes nothing', not [r for r in S.mem if r[0] == 'P' and not (r[1].k == 'load')], f, 'writes the map')


def merge_(a):
    m, o = SYM('map'), SYM('other')
    f = TM_ + '::merge'
    S = a.S(f, None, [m, o])
    M, O = inner(a, m), inner(a, o)
    x = mk('elem', O, 0)
    want = coll('map', M, (mk('for', x, O, 0, (mk('item', 1, x),)),))
    a.same('merging moves in every entry, replacing equal keys', f, proj(mget(S.mem, ('P', m)), TM_, 0, 0), want)
    p = proj(mget(S.mem, ('P', o)), TM_, 0, 0)
    a.ob('the other map is left empty', nonempty(p) == 0, f, show(p))
    a.no_panic('merging never panics', S)


def private(a):
    d = a.p.adts[TM_]
    a.ob('the map is only reachable through its operations', not any(f['public'] for f in d['variants'][0]['fields']), TM_)


RULES = [('keys', keys), ('new', new), ('insert', insert), ('look-up', get), ('merge', merge_), ('encapsulation', private)]
