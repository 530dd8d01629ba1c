"""C12 wrapping with a start production."""
from rules import *
from props.gram import *

LEVEL = 'proof'
EXPLAIN = ('The wrapping function is summarised from MIR down to the list of rules it hands to the grammar constructor; what the grammar accessors show of that list is compared, for an arbitrary grammar, '
           'with one start rule followed by every original rule, production and element under the wrappers.')
SG = 'start_grammar::'


def gnew(M, c, args, info):
    return call('Grammar::new', tuple(strip(M.val(c, x)) for x in args))


def wrap(ty, a, name, v=None):
    return AGG(SG + ty, evar(a, SG + ty, name), () if v is None else (v,))


def wrapping(a):
    b = Gram(a)
    g = SYM('g')
    f = SG + 'wrap_grammar_with_start'
    S = a.S(f, {GR + '::new': gnew}, [g])
    a.ob('the result is the grammar made from the wrapped rules', S.val.k == 'call' and S.val.a[0] == 'Grammar::new', f, show(S.val)[:400])
    if not (S.val.k == 'call' and S.val.a[0] == 'Grammar::new'):
        return
    st, rs = S.val.a[1]
    nt = lambda x: wrap('StartNonTerminal', a, 'NTerm', x)
    start = wrap('StartNonTerminal', a, 'Start')
    a.same('the start symbol is the fresh one', f, st, start)
    w = SYM('wrapped')
    got = cmap(rs, lambda r: strip_names(b.orule(b.rule(w, r))))
    eos = wrap('StreamTerminal', a, 'EndOfStream')
    T_ = evar(a, EL, 'Term')

    def welem(e):
        i, v = proj(e, '()', 0, 0), proj(e, '()', 0, 1)
        t = is_variant(v, EL, T_)
        return TUP(i, ite(t, term(a, wrap('StreamTerminal', a, 'Term', proj(v, EL, T_, 0))), nonterm(a, nt(proj(v, EL, 1 - T_, 0)))))

    def wprod(h, p):
        return TUP(nt(h), wrap('StartActionKey', a, 'ActionKey', b.key(p)), wrap('StartActionValue', a, 'ActionValue', b.value(p)), cmap(b.elems(p), lambda e: welem(b.oelem(e))))

    def wrule(r):
        h = b.head(r)
        return TUP(nt(h), cmap(b.prods(r), lambda p: wprod(h, p)))
    orig = as_pieces(cmap(a.collect(a.app(GR + '::rules', g)), wrule))
    for i, p in enumerate(got.a[2] if got.k == 'coll' else ()):
        if p.k == 'item' and proj(p.a[1], '()', 0, 0) is start:
            break
    else:
        a.ob('there is one rule for the start symbol', False, f, show(got)[:900])
        return
    sr = p.a[1]
    sp = proj(sr, '()', 0, 1)
    ok = sp.k == 'coll' and sp.a[1] is None and len(sp.a[2]) == 1 and sp.a[2][0].k == 'item' and sp.a[2][0].a[0] == 1 and p.a[0] == 1
    if not a.ob('the start rule has exactly one production', ok, f, show(sp)[:600]):
        return
    h, k, v, es = sp.a[2][0].a[1].a[2]
    a.same('the start production has the start action key', f, k, wrap('StartActionKey', a, 'Start'))
    a.same('the start production has the start action value', f, v, wrap('StartActionValue', a, 'Start'))
    ok = es.k == 'coll' and es.a[1] is None and len(es.a[2]) == 2 and all(q.k == 'item' and q.a[0] == 1 for q in es.a[2])
    if a.ob('the start production has two elements', ok, f, show(es)[:600]):
        e1, e2 = es.a[2][0].a[1], es.a[2][1].a[1]
        a.same('the start production first derives the original start symbol', f, proj(e1, '()', 0, 1), nonterm(a, nt(strip(a.app(GR + '::start_nt', g)))))
        a.ob('the original start symbol is named', some_guard(proj(e1, '()', 0, 0)) == 1, f, show(e1))
        a.same('the start production ends with the end of stream', f, proj(e2, '()', 0, 1), term(a, eos))
        a.same('the end of stream has no name', f, proj(e2, '()', 0, 0), NONE)
    rest = coll('vec', None, got.a[2][:i] + got.a[2][i + 1:])
    a.same('every original rule is carried over in order, and nothing else', f, rest, coll('vec', None, tuple(orig)), w=3000)
    a.no_panic('wrapping never panics', S)


def strip_names(t):
    for c in calls_in(t, 'text'):
        if len(c.a[1]) == 1:
            t = TM.replace_term(t, c, c.a[1][0])
    return t


def start(a):
    b = Gram(a)
    g = SYM('g')
    M = b.map(g)
    KIND[M] = 'map'
    s = wrap('StartNonTerminal', a, 'Start')
    f = GR + '::start_rule'
    S = a.S(f, None, [g])
    r = b.rule(g, load(M, s))
    a.same('the start rule is the rule of the start symbol', f, S.val, r)
    a.no_panic('a wrapped grammar has a start rule', S, has(M, s))
    f = GR + '::start_prod'
    S = a.S(f, None, [g])
    # the list of productions of the start rule is a single one
    ps = b.prods(r)
    src = [p.a[1] for p in as_pieces(ps) if p.k == 'for']
    if a.ob('the productions of the start rule are listed', len(src) == 1, f, show(ps)[:400]):
        one = coll('vec', None, items(SYM('only')))
        cut = lambda t: TM.replace_term(t, src[0], one)
        p = [p for p in as_pieces(ps) if p.k == 'for'][0]
        got, want = cut(S.val), cut(cut_elem(ps, p))
        a.ob('the start production is the only production of the start rule', want is got, f, 'found %s of %s' % (show(got)[:300], show(want)[:300]))
        for gd, w, fn, stk in S.panics:
            a.never('a start rule with one production has a start production', f, AND(truth(cut(BOOL(gd))) if gd not in (0, 1) else gd, has(M, s)), '%s in %s' % (w, fn))


def cut_elem(ps, p):
    """the one production of a rule whose list of productions has the single item `only`"""
    if len(p.a[3]) != 1 or p.a[3][0].k != 'item' or p.a[3][0].a[0] != 1:
        raise Missing('production of a rule: %s' % show(ps)[:300])
    return subst(p.a[3][0].a[1], {p.a[0]: SYM('only')})


def kinds(a):
    t, k = SYM('tok'), SYM('kind')
    ty = SG + 'StreamTerminal'
    T_ = evar(a, ty, 'Term')
    f = ty + '::has_kind'
    a.iff('the end of stream has no kind, and a terminal has its own', f, truth(a.app(f, t, k)), AND(is_variant(t, ty, T_), eq(proj(t, ty, T_, 0), k)))
    f = ty + '::is_eos'
    a.iff('only the end of stream is the end of stream', f, truth(a.app(f, t)), NOT(is_variant(t, ty, T_)))
    ty = SG + 'StartActionKey'
    K_ = evar(a, ty, 'ActionKey')
    f = ty + '::as_base'
    a.same('the original action key is shown', f, a.app(f, t), opt(is_variant(t, ty, K_), proj(t, ty, K_, 0)))
    for ty in ('StreamTerminal', 'StartNonTerminal', 'StartActionKey', 'StartActionValue'):
        f = a.impl(SG + ty, 'std::clone::Clone', 'clone')
        a.same('copies of wrapped parts are equal', f, a.app(f, t), t)


RULES = [('wrapping', wrapping), ('start rule', start), ('wrappers', kinds)]
