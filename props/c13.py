"""C13 non-null transform."""
from rules import *
from props.gram import *
from props.sets import *
from props.c06 import each_prod
import props.rel_collect as RC

LEVEL = 'proof'
TECHNIQUE = 'fold summaries from MIR: the value carried through the elements of a production is compared step by step with the definition, and the resulting rules with the rules of the original; no execution, no solver'
EXPLAIN = ('The transform is summarised from MIR down to the list of rules it hands to the grammar constructor, for an arbitrary grammar, with the nullable analysis as given (C06, C09). The choices carried from one '
           'element of a production to the next are compared, for each kind of element, with keeping and (if nullable) dropping it; the productions emitted, with every non-empty choice of every original production.')
NN = 'grammar::transform::nonnull::'
NI = PASSES + 'nullable::nullables::GrammarNullableInfo'


def gnew(M, c, args, info):
    return call('Grammar::new', tuple(strip(M.val(c, x)) for x in args))


def ctx_of(S):
    for t in subterms(S.val):
        if t.k == 'call' and t.a[0] in ('pass', 'pass error'):
            return t.a[1][1]
    raise Missing('use of the nullable analysis')


def items_of(ps, under=()):
    """items of pieces with the loops around them"""
    for p in ps:
        if p.k == 'for':
            yield from items_of(p.a[3], under + (p,))
        elif p.k == 'item':
            yield p, under
        else:
            raise Unsupported('piece %s' % p.k)


def check(a):
    b = Gram(a)
    g = SYM('g')
    b.keyed(g)
    f = NN + 'transform_to_nonnull'
    S = a.S(f, dict(RC.CONTRACTS, **{GR + '::new': gnew}), [g], key='c13')
    a.no_panic('the transform never panics', S)
    calls = calls_in(S.val, 'Grammar::new')
    if not a.ob('one grammar is made', len(calls) == 1, f, show(S.val)[:600]):
        return
    made = calls[0]
    st, rs = made.a[1]
    ctx = ctx_of(S)
    a.same('nullability of the given grammar is used', f, strip(a.app(PC + '::grammar', ctx)), g)
    ok = okvar(NU, ctx)
    mok = is_variant(made, RES, 0)
    a.iff('the transform succeeds when nullability is known and the rules make a grammar', f, is_variant(S.val, RES, 0), AND(ok, mok))
    c = AND(ok, mok)
    a.same('the result is the grammar made', f, restrict(proj(S.val, RES, 0, 0), c), restrict(proj(made, RES, 0, 0), c), cond=c)
    a.same('the start symbol stays', f, restrict(st, ok), strip(a.app(GR + '::start_nt', g)), cond=ok)
    # the productions of the rules made
    w = SYM('w')
    M = b.map(g)
    KIND[M] = 'map'
    norm = keyed(b, g, M)
    rs = strip(restrict(rs, ok))
    shown = norm(cmap(rs, lambda r: TUP(b.head(b.rule(w, r)), cmap(b.prods(b.rule(w, r)), lambda p: TUP(b.key(p), b.value(p), b.elems(p))))))
    q = SYM('anyhead')
    a.iff('exactly the original heads have rules', f, has(coll('set', None, tuple(as_pieces(cmap(shown, lambda t: proj(t, '()', 0, 0))))), q), has(M, q))
    out = []
    for it, und in items_of(as_pieces(shown)):
        h, ps = it.a[1].a[2]
        for jt, und2 in items_of(as_pieces(ps)):
            out.append((und + und2, AND(it.a[0], jt.a[0]), h) + tuple(jt.a[1].a[2]))
    if not a.ob('productions come from one place', len(out) == 1, f, '%d places' % len(out)):
        return
    und, gd, h, key, val, els = out[0]
    s, src = und[-1].a[0], und[-1].a[1]
    if not a.ob('productions are emitted for the choices carried through the elements', src.k == 'foldv', f, show(src)[:400]):
        return
    F, i = src.a
    x, E, stop, mus, inits, nexts = F.a
    mu, init, nxt = mus[i], strip(inits[i]), strip(nexts[i])
    KIND.setdefault(mu, 'vec')
    KIND.setdefault(src, 'vec')
    a.ob('no element is left out', stop.b == 0, f, show_bdd(stop.b))
    # the original production, in the terms of the loop over its elements
    P = []
    each_prod(a, b, g, lambda p: P.append(p) or [])
    P = [p for p in (norm(p) for p in P) if strip(norm(b.elems(p))) is strip(E)]
    if not a.ob('the choices are made for the elements of one original production', len(P) == 1, f, show(E)[:300]):
        return
    p = P[0]

    # which parts of a choice are the kept elements, the flags and the null derivations
    def other(t, adt, own):
        l = [proj(t, adt, 0, k) for k in range(len(fields(a.p, adt)))]
        r = [y for y in l if norm(y) is not norm(own)]
        return r[0] if len(r) == 1 and len(l) == 2 else None
    fl = other(key, NN + 'ActionKey', b.key(p))
    ar = other(val, NN + 'ActionValue', b.value(p))
    a.ob('a production keeps the original action key', fl is not None, f, show(key)[:400])
    a.ob('a production keeps the original action value', ar is not None, f, show(val)[:400])
    if fl is None or ar is None:
        return
    parts = lambda c: tuple(strip(subst(t, {s: c})) for t in (els, fl, ar))
    for n, t, kd in zip(('elements', 'flags', 'null derivations'), parts(s), ('vec', 'vec', 'map')):
        if not a.ob('the %s of a production are those of the choice' % n, t.fv <= {s} | src.fv and s in t.fv, f, show(t)[:300]):
            return
        KIND[t] = kd
    e0, f0, a0 = parts(s)
    # every choice is emitted, under its head, unless it keeps nothing
    got = norm(coll('set', None, rel(as_pieces(shown))))
    q = SYM('anyproduction')

    def emitted(p):
        return [forp(s, src, 0, [mk('item', nonempty(e0), TUP(norm(b.phead(p)), key, val, els))])]
    want = norm(coll('set', None, each_prod(a, b, g, emitted)))
    a.iff('every choice that keeps something is a production of the same head, and nothing else is', f, has(got, q), has(want, q))
    # the choices
    I = as_pieces(init)
    if a.ob('there is one choice at the start', len(I) == 1 and I[0].k == 'item' and I[0].a[0] == 1, f, show(init)[:300]):
        for n, t, kd in zip(('elements', 'flags', 'null derivations'), parts(I[0].a[1]), ('vec', 'vec', 'map')):
            a.ob('the choice at the start has no %s' % n, t is EMPTYC(kd), f, show(t)[:300])
    nm, el = b.eid(x), b.elem(x)
    N_ = evar(a, EL, 'NonTerm')
    isn, nt = is_variant(el, EL, N_), proj(el, EL, N_, 0)
    act = a.app(NI + '::get_nullable_action', a.app(NU + '::get_nullable_info', result(NU, ctx)), nt)
    nul = some_guard(act)
    named = is_variant(nm, OPT, 1)
    c = mk('elem', mu, 0)
    e1, f1, a1 = parts(c)
    for t, kd in ((e1, 'vec'), (f1, 'vec'), (a1, 'map')):
        KIND[t] = kd
    add = lambda v, y: coll('vec', v, items(y))
    keep = TUP(add(e1, x), add(f1, FALSE), a1)
    args = coll('map', a1, items(TUP(unsome(restrict(nm, named)), unsome(restrict(act, nul)))))
    step = lambda gd, *ts: (gd, coll('vec', None, (forp(c, mu, 0, items(*ts)),)))
    q = SYM('anychoice')
    for n, (gd, wnt) in (('a terminal is kept', step(NOT(isn), TUP(add(e1, x), f1, a1))),
                         ('a nonterminal that is not nullable is kept', step(AND(isn, NOT(nul)), keep)),
                         ('a nullable nonterminal is kept or dropped', step(AND(isn, nul, NOT(named)), keep, TUP(e1, add(f1, TRUE), a1))),
                         ('a named nullable nonterminal is kept, or dropped with its null derivation', step(AND(isn, nul, named), keep, TUP(e1, add(f1, TRUE), args)))):
        st = cmap(restrict(nxt, gd), lambda t: TUP(*parts(t)))
        same_choices(a, n, f, st, wnt, gd, q)


def same_choices(a, n, f, got, want, gd, q):
    got, want = restrict(got, gd), restrict(want, gd)
    gs = [coll('set', None, tuple(apart(as_pieces(t), gd))) for t in (got, want)]
    a.iff(n, f, has(gs[0], q), has(gs[1], q), cond=gd)
    cnt = [AND(it.a[0], gd) != 0 for it, _ in items_of(as_pieces(got))]
    a.ob('%s, once' % n, sum(cnt) == sum(1 for _ in items_of(as_pieces(want))), f, show(got)[:600])


def apart(ps, gd):
    """pieces of a set when gd, one loop for each item"""
    for p in ps:
        if p.k == 'for':
            for q in apart(p.a[3], gd):
                r = forp(p.a[0], p.a[1], p.a[2], [q])
                if r is not None:
                    yield r
        elif AND(p.a[0], gd):
            h = AND(p.a[0], gd)
            yield mk('item', p.a[0], given(p.a[1], h))


def keyed(b, g, M):
    """rules are stored under their heads (C10)"""
    def put(t, y):
        return TM.replace_term(t, b.head(b.rule(g, proj(y, '()', 0, 1))), proj(y, '()', 0, 0))

    def pieces(ps):
        out = []
        for p in ps:
            if p.k == 'for':
                r = forp(p.a[0], p.a[1], p.a[2], pieces([put(q, p.a[0]) for q in p.a[3]] if p.a[1] is M else p.a[3]))
                if r is not None:
                    out.append(r)
            else:
                out.append(p)
        return tuple(out)

    def norm(t):
        for y in [y for y in t.fv if y.k == 'elem' and y.a[0] is M]:
            t = put(t, y)
        return coll(t.a[0], t.a[1], pieces(t.a[2])) if t.k == 'coll' else t
    return norm


def rel(ps):
    """(head, key, value, elements) of the productions of a list of rules"""
    out = []
    for p in ps:
        if p.k == 'for':
            r = forp(p.a[0], p.a[1], p.a[2], rel(p.a[3]))
            if r is not None:
                out.append(r)
        else:
            h, qs = p.a[1].a[2]
            out += TM.guard_pieces(tails(as_pieces(qs), h), p.a[0])
    return out


def tails(ps, h):
    out = []
    for p in ps:
        if p.k == 'for':
            r = forp(p.a[0], p.a[1], p.a[2], tails(p.a[3], h))
            if r is not None:
                out.append(r)
        else:
            out.append(mk('item', p.a[0], TUP(h, *p.a[1].a[2])))
    return out


RULES = [('transform', check)]
