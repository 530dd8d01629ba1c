"""C10 built grammars hold what was added."""
from rules import *
from props.gram import *

LEVEL = 'proof'
EXPLAIN = ('The builder operations and grammar accessors are summarised from MIR; what the accessors show of a grammar is followed, operation by operation, from the values given to the builders: '
           'every adding operation extends what is shown by exactly the given item at the end, rules added in parts are put together in order, and every accessor agrees with these.')


class Build(Gram):
    """what accessors will show of the contents of the builders"""

    def __init__(self, a):
        Gram.__init__(self, a)
        k = SYM
        # a production builder inside a rule builder inside a grammar builder
        self.pb, self.rb, self.gb = SYM('pb'), SYM('rb'), SYM('gb')
        self.S_prod = a.S(BB + 'RuleBuilder::add_prod', None, [self.rb, SYM('key'), SYM('val'), SYM('fn')])
        self.S_rule = a.S(BB + 'GrammarBuilder::add_rule', None, [self.gb, SYM('head'), SYM('fn')])
        self.S_build = a.S(BB + 'build', None, [SYM('start'), SYM('fn')])
        self.pb0, self.pb_of = self.callback(self.S_prod, BB + 'RuleBuilder::add_prod')
        self.rb0, self.rb_of = self.callback(self.S_rule, BB + 'GrammarBuilder::add_rule')
        self.gb0, self.gb_of = self.callback(self.S_build, BB + 'build')
        self.rb1 = self.put(mget(self.S_prod.mem, ('P', self.rb)), self.pb_of, self.pb)
        self.gb1 = self.put(mget(self.S_rule.mem, ('P', self.gb)), self.rb_of, self.rb)
        self.appended(self.gb1, self.gb)

    def callback(self, S, f):
        """(argument of the one call of the given function, its content after the call)"""
        tr = mget(S.mem, ('TR',))
        ok = tr.k == 'coll' and tr.a[1] is None and len(tr.a[2]) == 1 and tr.a[2][0].k == 'item' and tr.a[2][0].a[0] == 1
        self.a.ob('the given function is called exactly once, on a new builder', ok, f, show(tr)[:300])
        if not ok:
            raise Missing('callback of %s' % f)
        arg = proj(tr.a[2][0].a[1], '()', 0, 1)
        return arg, call('apply@0', (SYM('fn'), arg))

    def put(self, t, old, new):
        return TM.replace_term(t, old, new)

    def appended(self, v, old):
        """v is old with one item appended to one of its fields"""
        a = self.a
        adt = BB + 'GrammarBuilder'
        fs = fields(a.p, adt)
        hit = None
        for i in range(len(fs)):
            x, y = proj(v, adt, 0, i), proj(old, adt, 0, i)
            if x is y:
                continue
            if hit is None and x.k == 'coll' and x.a[0] == 'vec' and x.a[1] is y and len(x.a[2]) == 1 and x.a[2][0].k == 'item' and x.a[2][0].a[0] == 1:
                hit = (i, x.a[2][0].a[1])
            else:
                hit = None
                break
        a.ob('adding a rule appends one rule and changes nothing else', hit is not None, adt + '::add_rule', show(v)[:600])
        if hit is None:
            raise Missing('appended rule')
        self.rules_i, self.ri_t = hit

    def ri(self, rb):
        """the rule appended for the rule builder rb"""
        return subst(self.ri_t, {self.rb: rb})

    def shown(self, rb):
        return self.orule(self.rule(SYM('g'), self.ri(rb)))


def productions(a):
    b = Build(a)
    g = SYM('g')
    f = BB + 'RuleBuilder::add_prod'
    h0 = b.head(b.rule(g, b.ri(b.rb)))
    ps0 = b.prods(b.rule(g, b.ri(b.rb)))
    k, v = call(BB + 'BuilderInto::builder_into', (SYM('key'),)), call(BB + 'BuilderInto::builder_into', (SYM('val'),))
    r1 = b.rule(g, b.ri(b.rb1))
    a.same('adding a production keeps the head', f, b.head(r1), h0)
    ps1 = b.prods(r1)
    # the appended production
    new = None
    if ps1.k == 'coll' and ps1.a[2] and ps1.a[2][-1].k == 'item' and ps1.a[2][-1].a[0] == 1:
        new = ps1.a[2][-1].a[1]
    if a.ob('adding a production appends it', new is not None, f, show(ps1)[:600]):
        a.same('adding a production keeps the others in order', f, ps1, coll('vec', None, tuple(as_pieces(ps0)) + items(new)))
        a.same('a production shows the given action key', f, subst(b.key(new), {b.pb: b.pb0}), k)
        a.same('a production shows the given action value', f, subst(b.value(new), {b.pb: b.pb0}), v)
        a.same('a production shows the head of its rule', f, b.phead(new), h0)

        def els(pb):
            return cmap(subst(b.elems(new), {b.pb: pb}), b.oelem)
        a.same('a new production is empty', f, els(b.pb0), EMPTYC('vec'))
        n, t = SYM('name'), SYM('sym')
        ni, ti = call(BB + 'BuilderInto::builder_into', (n,)), call(BB + 'BuilderInto::builder_into', (t,))
        for m, args, item in (('add_term', [t], TUP(NONE, term(a, ti))), ('add_nonterm', [t], TUP(NONE, nonterm(a, ti))),
                              ('add_named_term', [n, t], TUP(SOME(ni), term(a, ti))), ('add_named_nonterm', [n, t], TUP(SOME(ni), nonterm(a, ti)))):
            fn = BB + 'ProductionBuilder::' + m
            S = a.S(fn, None, [b.pb] + args)
            p1 = mget(S.mem, ('P', b.pb))
            a.same('adding an element appends exactly it', fn, els(p1), coll('vec', None, tuple(as_pieces(els(b.pb))) + items(item)))
            for w, o in (('action key', b.key), ('action value', b.value)):
                a.same('adding an element keeps the %s' % w, fn, subst(o(new), {b.pb: p1}), o(new))
            a.ob('chained calls go to the same production', S.val.k == 'ref' and S.val.a == (('P', b.pb), ()), fn, show(S.val))
            a.no_panic('adding elements never panics', S)
    f = BB + 'RuleBuilder::add_prod_with_elems'
    es = SYM('elems')
    S = a.S(f, None, [b.rb, SYM('key'), SYM('val'), es])
    r2 = b.rule(g, b.ri(mget(S.mem, ('P', b.rb))))
    a.same('adding a production keeps the head', f, b.head(r2), h0)
    ps2 = b.prods(r2)
    if a.ob('adding a production appends it', ps2.k == 'coll' and ps2.a[2] and ps2.a[2][-1].k == 'item', f, show(ps2)[:600]):
        new = ps2.a[2][-1].a[1]
        a.same('adding a production keeps the others in order', f, ps2, coll('vec', None, tuple(as_pieces(ps0)) + items(new)))
        a.same('a production shows the given action key', f, b.key(new), k)
        a.same('a production shows the given action value', f, b.value(new), v)
        a.same('a production shows the given elements', f, b.elems(new), call(BB + 'BuilderInto::builder_into', (es,)))
    for S in (b.S_prod, S):
        a.ob('chained calls go to the same rule', S.val.k == 'ref' and S.val.a == (('P', b.rb), ()), S.name, show(S.val))
        a.no_panic('adding productions never panics', S)


def rules_(a):
    b = Build(a)
    g = SYM('g')
    f = BB + 'GrammarBuilder::add_rule'
    head = call(BB + 'BuilderInto::builder_into', (SYM('head'),))
    r0 = b.rule(g, b.ri(b.rb0))
    a.same('a new rule shows the given head', f, b.head(r0), head)
    a.same('a new rule is empty', f, b.prods(r0), EMPTYC('vec'))
    a.ob('chained calls go to the same grammar', b.S_rule.val.k == 'ref' and b.S_rule.val.a == (('P', b.gb), ()), f, show(b.S_rule.val))
    a.no_panic('adding rules never panics', b.S_rule)
    f = BB + 'build'
    adt = BB + 'GrammarBuilder'
    a.same('a new grammar has no rules', f, proj(b.gb0, adt, 0, b.rules_i), EMPTYC('vec'))
    v = b.put(b.S_build.val, b.gb_of, b.gb)
    R = [(w, h) for w, h in branches(v) if is_variant(w, RES, 0) != 0]
    if not a.ob('a successful build gives one grammar', len(R) == 1, f, str([show(w)[:200] for w, h in branches(v)])):
        return
    G_ = proj(R[0][0], RES, 0, 0)
    st = strip(a.app(GR + '::start_nt', G_))
    a.same('the grammar has the given start symbol', f, subst(st, {b.gb: b.gb0}), call(BB + 'BuilderInto::builder_into', (SYM('start'),)))
    a.same('the start symbol stays while rules are added', f, subst(st, {b.gb: b.gb1}), st)
    # putting the added rules together
    M = b.map(G_)
    fn = GR + '::new'
    S = a.S(fn, None, [SYM('start'), SYM('rules')])
    KIND[SYM('rules')] = 'vec'
    ls = [L for L in S.loops if getattr(L, 'fold', False) and L.src is SYM('rules')]
    if not a.ob('the added rules are put together one by one', len(ls) == 1, fn, '%d loops' % len(ls)):
        return
    L = ls[0]
    R = [(w, h) for w, h in branches(S.val) if is_variant(w, RES, 0) != 0]
    M1 = b.map(proj(R[0][0], RES, 0, 0))
    j = [i for i in range(len(L.mus)) if M1.k == 'foldv' and M1.a[1] == i]
    a.ob('the grammar holds the rules put together', len(j) == 1 and M1.a[0].k == 'fold' and M1.a[0].a[1] is SYM('rules'), fn, show(M1)[:600])
    a.ob('a built grammar is made from exactly the added rules', M is b.put(subst(M1, {SYM('rules'): proj(b.gb, adt, 0, b.rules_i)}), SYM('start'), st) or same_fold(M, M1, proj(b.gb, adt, 0, b.rules_i)), f, show(M)[:600])
    if len(j) != 1:
        return
    j = j[0]
    m, x, nxt = L.mus[j], L.x, L.nexts[j]
    KIND[m] = 'map'
    a.ob('the rules are put together from nothing', L.inits[j] is EMPTYC('map'), fn, show(L.inits[j]))
    q = SYM('anyhead')
    hx = b.head(b.rule(g, x))
    px = b.prods(b.rule(g, x))
    a.iff('a rule is there for exactly the heads that were added', fn, has(nxt, q), OR(has(m, q), eq(q, hx)))
    a.same('rules of other heads stay', fn, restrict(load(nxt, q), AND(has(m, q), NOT(eq(q, hx)))), restrict(load(m, q), AND(has(m, q), NOT(eq(q, hx)))), AND(has(m, q), NOT(eq(q, hx))))
    # the rule of this head
    KIND[m] = 'map'
    for nm, cnd, old in (('a first rule', NOT(has(m, hx)), None), ('a further rule', has(m, hx), load(m, hx))):
        w = b.rule(g, restrict(load(nxt, hx), cnd))
        hd = b.head(w)
        want = hx if old is None else b.head(b.rule(g, old))
        a.same('a rule is stored under its head (%s)' % nm, fn, restrict(hd, cnd), restrict(want, cnd), cnd)
        o = as_pieces(b.prods(b.rule(g, old))) if old is not None else []
        got = cmap(b.prods(w), lambda p: key_part(b, p))
        wnt = cmap(coll('vec', None, tuple(o) + tuple(as_pieces(px))), lambda p: key_part(b, p))
        a.same('productions of one head are kept in the order added (%s)' % nm, fn, restrict(got, cnd), restrict(wnt, cnd), cnd)
    a.no_panic('building never panics', S)
    a.no_panic('building never panics', b.S_build)


def key_part(b, p):
    return TUP(b.key(p), b.value(p), b.elems(p))


def same_fold(M, M1, src):
    """is M the fold M1 over another source?"""
    if M.k != 'foldv' or M1.k != 'foldv' or M.a[1] != M1.a[1]:
        return False
    F, F1 = M.a[0], M1.a[0]
    if F.a[1] is not src or F1.a[1] is not SYM('rules'):
        return False
    t = subst(F1, {SYM('rules'): src})
    return t is F


def accessors(a):
    b = Gram(a)
    g, nt = SYM('g'), SYM('nt')
    M = b.map(g)
    KIND[M] = 'map'
    b.keyed(g)
    f = GR + '::try_get_rule'
    x = mk('elem', M, 0)
    a.same('looking up a head gives its rule', f, a.app(f, g, nt), opt(has(M, nt), b.rule(g, load(M, nt))))
    f = GR + '::get_rule'
    S = a.S(f, None, [g, nt])
    a.same('looking up a head gives its rule', f, S.val, b.rule(g, load(M, nt)))
    a.no_panic('looking up a known head does not panic', S, has(M, nt))
    f = GR + '::rules'
    each_rule = coll('vec', None, (forp(x, M, 0, [mk('item', 1, b.rule(g, proj(x, '()', 0, 1)))]),))
    a.same('every rule is listed once, by head', f, a.collect(a.app(f, g)), each_rule)
    f = GR + '::rule_set'
    a.same('every rule is listed under its head', f, a.app(f, g), coll('map', None, (forp(x, M, 0, [mk('item', 1, TUP(proj(x, '()', 0, 0), b.rule(g, proj(x, '()', 0, 1))))]),)))
    f = GR + '::prods'
    ps = b.prods(b.rule(g, proj(x, '()', 0, 1)))
    a.same('every production is listed once, rule by rule', f, a.collect(a.app(f, g)), coll('vec', None, (forp(x, M, 0, as_pieces(ps)),)))
    # rules
    r = SYM('rule')
    f = RU + '::prods'
    ps = b.prods(r)
    y = ps.a[2][0].a[0] if ps.k == 'coll' and len(ps.a[2]) == 1 and ps.a[2][0].k == 'for' else None
    if a.ob('every production of a rule is listed once, in order', y is not None and ps.a[1] is None and ps.a[2][0].a[2] == 0 and len(ps.a[2][0].a[3]) == 1 and ps.a[2][0].a[3][0].k == 'item' and ps.a[2][0].a[3][0].a[0] == 1, f, show(ps)[:400]):
        p = ps.a[2][0].a[3][0].a[1]
        a.same('a production names the head of its rule', f, b.phead(p), b.head(r))
        for nm, o in (('key', b.key(p)), ('value', b.value(p)), ('elements', b.elems(p))):
            a.ob('a production of a rule shows its own %s' % nm, o.k == 'fld' and o.a[0] is y, f, show(o))
    # productions
    p, i = SYM('prod'), SYM('i')
    UNSIGNED.add(i)
    E = b.elems(p)
    KIND[E] = 'vec'
    n = length(E)
    z = mk('elem', E, 0)
    el = lambda e: b.elem(e)
    f = PR + '::elements'
    a.same('elements are listed once, in order', f, a.collect(a.app(f, p)), coll('vec', None, (forp(z, E, 0, [mk('item', 1, el(z))]),)))
    f = PR + '::num_elements'
    a.same('the number of elements is right', f, a.app(f, p), n)
    f = PR + '::prod_element_at'
    a.same('the n-th element is right', f, a.app(f, p, i), opt(lt(i, n), index(E, i)))
    f = PR + '::element_at'
    a.same('the n-th element is right', f, a.app(f, p, i), opt(lt(i, n), el(index(E, i))))
    f = PR + '::first_elem'
    a.same('the first element is right', f, a.app(f, p), opt(nonempty(E), el(index(E, INT(0)))))
    f = PR + '::prod_key'
    k = a.app(f, p)
    a.same('a production key names its head', f, a.app(PK + '::head', k), b.phead(p))
    a.same('a production key names its action', f, a.app(PK + '::action_key', k), b.key(p))
    for fn in ('num_elements', 'prod_element_at', 'element_at', 'first_elem', 'prod_key', 'elements', 'prod_elements', 'action_key', 'action_value', 'head'):
        fn = PR + '::' + fn
        a.no_panic('production accessors never panic', a.S(fn, None, [p] + ([i] if a.body(fn)['nargs'] > 1 else [])))
    for ty in (GR, RU, PR, PE, EL, PK):
        f = a.impl(ty, 'std::clone::Clone', 'clone')
        a.same('copies are equal', f, a.app(f, SYM('it')), SYM('it'))


def elements(a):
    b = Gram(a)
    n, e = SYM('name'), SYM('el')
    for f, args, i in (('new_with_name', [n, e], SOME(n)), ('new_empty', [e], NONE), ('new', [n, e], n)):
        f = PE + '::' + f
        v = a.app(f, *args)
        a.same('an element shows its identifier', f, b.eid(v), i)
        a.same('an element shows its symbol', f, b.elem(v), e)
    f = a.impl(PE, 'std::convert::From', 'from')
    a.same('an element shows its identifier', f, b.eid(a.app(f, e)), NONE)
    a.same('an element shows its symbol', f, b.elem(a.app(f, e)), e)
    T_, N_ = evar(a, EL, 'Term'), evar(a, EL, 'NonTerm')
    t = is_variant(e, EL, T_)
    f = EL + '::as_term'
    a.same('a terminal is seen as one', f, a.app(f, e), opt(t, proj(e, EL, T_, 0)))
    f = EL + '::as_nonterm'
    a.same('a nonterminal is seen as one', f, a.app(f, e), opt(NOT(t), proj(e, EL, N_, 0)))
    f = EL + '::as_ref'
    a.same('a borrowed symbol is the same', f, a.app(f, e), ite(t, term(a, proj(e, EL, T_, 0)), nonterm(a, proj(e, EL, N_, 0))))
    # conversions while building
    for fn in a.find(lambda n, bd: n.endswith('BuilderInto<T>>::builder_into')):
        a.same('values given to builders are taken as they are', fn, a.app(fn, SYM('x')), SYM('x'))
    for fn in a.find(lambda n, bd: n.endswith('BuilderInto<utils::Name>>::builder_into')):
        a.same('text given as name is its text', fn, a.app(fn, SYM('text')), TM.replace_term(a.app('utils::Name::new', SYM('text')), call('text', (SYM('text'),)), SYM('text')))


RULES = [('productions', productions), ('rules', rules_), ('accessors', accessors), ('elements', elements)]
