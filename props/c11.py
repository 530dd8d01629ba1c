"""C11 grammars are built exactly when well formed."""
from rules import *
from props.gram import *

LEVEL = 'proof'
EXPLAIN = ('Grammar construction is summarised from MIR down to the three reported sets and the accepting condition, the search for reachable nonterminals being replaced by its own property (C23); '
           'each set is compared, for an arbitrary nonterminal, with its definition over an arbitrary rule map, and the accepting condition with all three being empty.')
ER = GB + 'GrammarErrors'
BFS = 'utils::breadth_first_search'


def bfs(M, c, args, info):
    """everything reachable from the initial items by the step function"""
    init = std.collect_value(M, c, std.as_iter(M, c, args[0], info.argtys[0] if info.argtys else None), 'set')
    x = SYM('reached')
    cc = type(c)(c.mem)
    r = M.callf(cc, args[1], [x])
    step = std.collect_value(M, cc, std.as_iter(M, cc, r, None), 'set')
    if cc.surv != 1:
        M.panic(c, NOT(cc.surv), 'step of the search')
    v = call('reach', (strip(init), mk('lam', (x,), strip(step))))
    KIND[v] = 'set'
    return v


def setof(v):
    KIND.setdefault(strip(v), 'set')
    return strip(v)


def checks(a):
    b = Gram(a)
    f = GR + '::new'
    S = a.S(f, {BFS: bfs}, [SYM('start'), SYM('rules')])
    ok = [(w, h) for w, h in branches(S.val) if is_variant(w, RES, 0) != 0]
    er = [(w, h) for w, h in branches(S.val) if is_variant(w, RES, 1) != 0]
    if not a.ob('building gives a grammar or errors', len(ok) == 1 and len(er) == 1, f, show(S.val)[:500]):
        return
    G_ = proj(ok[0][0], RES, 0, 0)
    M_ = b.map(G_)
    M = SYM('rulemap')
    KIND[M] = 'map'    # the head of a rule is the key it is stored under (C10)
    hd = b.head(b.rule(SYM('g'), proj(mk('elem', M, 0), '()', 0, 1)))
    if a.ob('a rule knows its head', hd.k == 'fld' and hd.a[0] is proj(mk('elem', M, 0), '()', 0, 1), f, show(hd)):
        TM.KEYED.add((M, hd.a[1], hd.a[3]))
    gen = lambda t: TM.replace_term(t, M_, M)
    N = lambda f: truth(gen(BOOL(f)))
    okg = N(ok[0][1])
    E = gen(proj(er[0][0], RES, 1, 0))
    g = TM.replace_term(G_, M_, M)
    start = strip(a.app(GR + '::start_nt', g))
    a.same('the start symbol is the given one', f, start, SYM('start'))
    fs = fields(a.p, ER)
    q = SYM('anynt')
    i = {n: fs.index(n) for n in ('unreachable_nonterms', 'nonterms_without_rules', 'rules_without_prods')}
    sets = {n: setof(proj(E, ER, 0, i[n])) for n in i}
    # nonterminals used in productions
    x = mk('elem', M, 0)
    r = b.rule(g, proj(x, '()', 0, 1))

    N_ = evar(a, EL, 'NonTerm')

    def nts(cond):
        """set of nonterminals used, with a condition"""
        ps = cmap(b.prods(r), lambda p: cmap_nt(b, p, N_, cond))
        return forp(x, M, 0, flat(ps))

    def guarded(cond):
        return forp(x, M, 0, [mk('item', cond(b.head(r)), b.head(r))])
    want = coll('set', None, (nts(lambda n: NOT(has(M, n))),) + (mk('item', NOT(has(M, SYM('start'))), SYM('start')),))
    a.iff('nonterminals without rules are the used ones that no rule has as head', f, N(has(sets['nonterms_without_rules'], q)), N(has(want, q)))
    want = coll('set', None, (forp(x, M, 0, [mk('item', NOT(nonempty(b.prods(r))), b.head(r))]),))
    a.iff('rules without productions are those whose list is empty', f, N(has(sets['rules_without_prods'], q)), N(has(want, q)))
    # reachability
    rs = [t for t in subterms(sets['unreachable_nonterms']) if t.k == 'call' and t.a[0] == 'reach']
    if a.ob('unreachable nonterminals are found by a search', len(rs) == 1, f, show(sets['unreachable_nonterms'])[:600]):
        init, lam = rs[0].a[1]
        a.same('the search starts at the start symbol', f, init, coll('set', None, items(SYM('start'))))
        y, body = lam.a[0][0], lam.a[1]
        rr = b.rule(g, load(M, y))
        ps = cmap(b.prods(rr), lambda p: cmap_nt(b, p, N_, lambda n: 1))
        step = coll('set', None, tuple(TM.guard_pieces(flat(ps), has(M, y))))
        a.iff('a nonterminal reaches exactly the nonterminals of its productions', f, has(setof(body), q), has(step, q))
        want = coll('set', None, (nts(lambda n: NOT(has(rs[0], n))), guarded(lambda h: NOT(has(rs[0], h)))))
        a.iff('unreachable nonterminals are the known ones that the search did not reach', f, N(has(sets['unreachable_nonterms'], q)), N(has(want, q)))
    bad = OR(*[nonempty(s) for s in sets.values()])
    a.iff('building succeeds exactly when nothing is reported', f, okg, NOT(N(bad)))
    a.no_panic('building never panics', S)
    S = a.S(BB + 'build', {BFS: bfs}, [SYM('start'), SYM('fn')])
    a.no_panic('building never panics', S)
    a.ob('the build result is the check result', len(branches(S.val)) == 2, BB + 'build', show(S.val)[:300])


def flat(v):
    """pieces of a sequence of sequences of pieces"""
    out = []
    for p in v.a[2] if v.k == 'coll' else as_pieces(v):
        if p.k == 'item':
            out.extend(TM.guard_pieces(as_pieces(p.a[1]), p.a[0]))
        elif p.k == 'for':
            r = forp(p.a[0], p.a[1], p.a[2], flat(coll('vec', None, tuple(p.a[3]))))
            if r is not None:
                out.append(r)
    return out


def cmap_nt(b, p, N_, cond):
    """the nonterminals of a production with a condition, as a sequence"""
    E = b.elems(p)
    KIND.setdefault(E, 'vec')
    z = first_free(E)
    e = b.elem(z)
    n = proj(e, EL, N_, 0)
    return coll('vec', None, tuple(x for x in (forp(z, E, 0, [mk('item', AND(is_variant(e, EL, N_), cond(n)), n)]),) if x is not None))


RULES = [('well-formedness', checks)]
