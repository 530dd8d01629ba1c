"""C06 nullable analysis."""
from rules import *
from props.gram import *

LEVEL = 'proof'
TECHNIQUE = 'fixed-point loop summaries from MIR: the derivation rules a saturation loop applies are extracted and compared with the definition; no execution, no solver'
EXPLAIN = ('The pass is summarised from MIR for an arbitrary grammar. Its saturation loop is accepted only if it repeats exactly while something new is derived, so that its result is the least fixed point of the '
           'derivation rules it applies; these rules are compared with the definition of nullability. The error condition, the nullable set, and the recorded null derivations are compared through the public accessors.')
NU = 'grammar::passes::nullable::'
NI = NU + 'nullables::GrammarNullableInfo'
PC = 'grammar::passes::PassContext'
TN, TV = 'utils::TreeNode', 'utils::TreeValue'


def relation(kd, ps, pathok=True):
    """the (key, element) facts that the pieces of a collecting map add; (key, ()) for a plain set"""
    out = []
    for p in ps:
        if p.k == 'for':
            r = forp(p.a[0], p.a[1], p.a[2], list(relation(kd, p.a[3])))
            if r is not None:
                out.append(r)
        elif p.k == 'nest':
            for q in p.a[3]:
                out += TM.guard_pieces(under(q, p.a[1]), p.a[0])
        elif p.k == 'item':
            out.append(mk('item', p.a[0], TUP(p.a[1], UNIT) if kd == 'set' else p.a[1]))
        else:
            raise Unsupported('piece %s' % p.k)
    return tuple(out)


def under(q, key):
    if q.k == 'item':
        return [mk('item', q.a[0], TUP(key, q.a[1]))]
    if q.k == 'for':
        r = forp(q.a[0], q.a[1], q.a[2], [z for y in q.a[3] for z in under(y, key)])
        return [r] if r is not None else []
    raise Unsupported('piece %s' % q.k)


def path_of(ps):
    for p in ps:
        if p.k == 'nest':
            return p.a[4]
        if p.k == 'for':
            r = path_of(p.a[3])
            if r is not None:
                return r
    return None


def each_prod(a, b, g, fn):
    """pieces fn(p) for every production of g"""
    def go(ps):
        out = []
        for p in ps:
            if p.k == 'item':
                out += TM.guard_pieces(list(fn(p.a[1])), p.a[0])
            elif p.k == 'for':
                r = forp(p.a[0], p.a[1], p.a[2], go(p.a[3]))
                if r is not None:
                    out.append(r)
            else:
                raise Unsupported('sequence with %s' % p.k)
        return out
    return tuple(go(as_pieces(strip(a.collect(a.app(GR + '::prods', g))))))


def elems_of(b, p):
    E = b.elems(p)
    KIND.setdefault(E, 'vec')
    z = first_free(E)
    return z, E


def all_null(a, b, p, null):
    """every element of production p is a nullable nonterminal"""
    N_ = evar(a, EL, 'NonTerm')
    z, E = elems_of(b, p)
    e = b.elem(z)
    n = proj(e, EL, N_, 0)
    return NOT(exists(z, E, 0, NOT(AND(is_variant(e, EL, N_), null(n)))))


def run(a):
    b = Gram(a)
    f = a.impl(NU + 'Nullable', 'grammar::passes::Pass', 'run_pass')
    ctx = SYM('ctx')
    g = strip(a.app(PC + '::grammar', ctx))
    S = a.S(f, None, [ctx])
    # the saturation loop
    q = TUP(SYM('anynt'), SYM('anyprod'))
    best = None
    for L in S.flog:
        F = L.fixed
        gs = [(k, mu, ps) for k, (mu, ps) in F.grow.items() if ps]
        if not L.solved or len(gs) != 1:
            continue
        k, mu, ps = gs[0]
        if strip(F.leafinit(k)).k != 'coll' or as_pieces(strip(F.leafinit(k))):
            continue
        if path_of(ps) is None:
            continue
        best = best or (F, k, mu, ps)
    if not a.ob('one loop saturates a set of derived facts', best is not None, f, '; '.join('%s' % (L.fixed.why,) for L in S.flog) or 'no fixed-point loop'):
        return None
    F, k, mu, ps = best
    kd = KIND.get(mu) or 'set'
    got = coll('set', None, relation(kd, ps))
    want = coll('set', None, each_prod(a, b, g, lambda p: [mk('item', all_null(a, b, p, lambda n: has(mu, n)), TUP(b.phead(p), p))]))
    a.iff('a production is derived nullable exactly when all its elements are nullable nonterminals, and makes its head nullable', f, has(got, q), has(want, q))
    N = S.flog and F.fin[mu]
    path = path_of(ps)

    def actions(e):
        return proj(e, path[0], path[1], path[2]) if path else e
    return b, f, ctx, g, S, N, actions


def result(a):
    r = run(a)
    if r is None:
        return
    b, f, ctx, g, S, N, actions = r
    q, nt = SYM('anyprod'), SYM('anynt')
    a.no_panic('the analysis never panics', S)
    ok = [(w, h) for w, h in branches(S.val) if is_variant(w, RES, 0) != 0]
    okg = OR(*[h for _, h in ok])
    x = mk('elem', N, 0)
    many = exists(x, N, 0, NOT(TM.le(length(actions(proj(x, '()', 0, 1))), INT(1))))
    a.iff('an ambiguity is reported exactly when some nullable nonterminal has more than one nullable production', f, okg, NOT(many))
    if not a.ob('otherwise there is one result', len(ok) == 1, f, show(S.val)[:400]):
        return
    V = proj(ok[0][0], RES, 0, 0)
    NL = NU + 'Nullable'
    n = NL + '::is_nullable'
    a.iff('exactly the derived nonterminals are reported nullable', n, truth(a.app(n, V, nt)), has(N, nt))
    n = NL + '::get_nullable_set'
    a.iff('the nullable set holds exactly the derived nonterminals', n, has(strip(a.app(n, V)), nt), has(N, nt))
    n = NL + '::is_prod_nullable'
    pr = SYM('prod')
    a.iff('a production is nullable exactly when all its elements are', n, truth(a.app(n, V, pr)), all_null(a, b, pr, lambda m: has(N, m)))
    info = a.app(NL + '::get_nullable_info', V)
    n = NI + '::is_nullable'
    a.iff('exactly the derived nonterminals are reported nullable', n, truth(a.app(n, info, nt)), has(N, nt))
    n = NI + '::get_nullable_set'
    a.iff('the nullable set holds exactly the derived nonterminals', n, has(strip(a.app(n, info)), nt), has(N, nt))
    n = NI + '::is_prod_nullable'
    a.iff('a production is nullable exactly when all its elements are', n, truth(a.app(n, info, pr)), all_null(a, b, pr, lambda m: has(N, m)))
    n = NI + '::get_nullable_action'
    act = a.app(n, info, nt)
    a.iff('a null derivation is recorded for exactly the nullable nonterminals', n, some_guard(act), has(N, nt))
    derivation(a, b, f, n, unsome(restrict(act, some_guard(act))), N, actions, nt, S)
    for m in ('is_nullable', 'get_nullable_set', 'is_prod_nullable', 'get_nullable_info'):
        s = a.S(NL + '::' + m)
        a.no_panic('the accessors never panic', s)
    for m in ('is_nullable', 'get_nullable_set', 'is_prod_nullable', 'get_nullable_action'):
        a.no_panic('the accessors never panic', a.S(NI + '::' + m))


def derivation(a, b, f, n, d, N, actions, nt, S):
    if not a.ob('the null derivation is found', d is not BOT, f):
        return
    recs = [L.fixed.fin[mu] for L in S.flog if L.solved and getattr(L, 'how', '') == 'until no key is open' for k, (mu, ps) in L.fixed.grow.items() if ps]
    rec = {t.a[0] for t in subterms(tuple(L.fixed.fin[mu] for L in S.flog if L.solved and getattr(L, 'how', '') == 'until no key is open' for k, (mu, ps) in L.fixed.grow.items() if ps)) if t.k == 'load' and t.a[0].k == 'lfpv' and t.a[0] is not N}
    if not a.ob('null derivations are made from those of their elements until every nullable nonterminal has one', len(rec) == 1, f, '%d loops, %d sources of derivations' % (len(recs), len(rec))):
        return
    R = rec.pop()
    i0 = SYM('info')
    g0 = a.app(n, i0, nt)
    ld = [t for t in subterms(g0) if t.k == 'load' and t.a[1] is nt]
    if not a.ob('one recorded derivation is looked up', len(ld) == 1, n, show(g0)):
        return
    child = lambda m: subst(TM.replace_term(unsome(restrict(g0, some_guard(g0))), ld[0], load(R, m)), {i0: SYM('unused')})
    P = index(actions(load(N, nt)), INT(0))
    N_ = evar(a, EL, 'NonTerm')
    z, E = elems_of(b, P)
    e, i = b.elem(z), b.eid(z)
    c = child(proj(e, EL, N_, 0))
    fieldv = coll('map', None, tuple(x for x in (forp(z, E, 0, [mk('item', AND(some_guard(i), is_variant(e, EL, N_)), TUP(unsome(i), AGG(TV, evar(a, TV, 'Node'), (c,))))]),) if x))
    want = a.app(TN + '::new', a.app(PR + '::prod_key', P), fieldv)
    a.same('the null derivation of a nonterminal is its only nullable production with the null derivations of its named elements', f, d, want)


def trees(a):
    x, y = SYM('action'), SYM('params')
    KIND.setdefault(y, 'map')
    f = TN + '::new'
    v = a.app(f, x, y)
    got = [strip(z) for z in v.a[2]] if v.k == 'agg' and v.a[0] == TN else []
    a.ob('a recorded derivation keeps exactly the action and the arguments it is made from', sorted(got, key=id) == sorted([x, y], key=id), f, show(v)[:300])
    a.no_panic('recording a derivation never panics', a.S(f, None, [x, y]))
    f = TN + '::from_action'
    v = a.app(f, x)
    parts = [strip(z) for z in v.a[2]] if v.k == 'agg' and v.a[0] == TN else []
    a.ob('a derivation made from an action alone has no arguments', len(parts) == 2 and x in parts and any(z.k == 'coll' and not as_pieces(z) for z in parts), f, show(v)[:300])


RULES = [('recorded derivations', trees), ('nullable nonterminals', result)]
