"""C26 printing a grammar shows all of it."""
from rules import *
from props.gram import *
import mir

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of rustc MIR into text-sequence summaries, compared with the contents given by the accessors'
EXPLAIN = ('The printing functions are summarised from MIR as sequences of text parts (constants, printed forms of values, and loops over collections); with constants and layout left out, '
           'the sequence must be exactly the start symbol, heads, productions, elements and identifiers that the accessors give, in order; marks, ε and separators are checked on the constants.')
DEBUG = 'std::fmt::Debug'


def explode(ps):
    """items without choices in their values"""
    out = []
    for p in ps:
        if p.k == 'item':
            for v, g in TM.branches(p.a[1]):
                h = AND(p.a[0], g)
                if h:
                    out.append((h, v))
        elif p.k == 'for':
            out.append(p)
        else:
            raise Missing('text ' + p.k)
    return out


def is_const(v):
    return v.k == 'str' or (v.k == 'call' and v.a[0] == 'blank')


def under(p, g):
    """items of a loop body, the loop's source not being empty"""
    return mir.assume_piece(p, g) if g not in (0, 1) else p


def shown(v, keep=lambda v: not is_const(v)):
    """the parts of a text that are not constants"""
    def go(ps):
        out = []
        for p in explode(ps):
            if isinstance(p, tuple) and not isinstance(p, T):
                if keep(p[1]):
                    out.append(p)
            else:
                x, src, stop, body = p.a
                g = nonempty(src)
                body = [under(q, g) if q.k == 'item' else q for q in body]
                sub = go(tuple(body))
                if sub:
                    out.append(mk('for', x, src, stop, tuple(as_item(q) for q in order(sub))))
        return out

    def order(qs):
        qs = list(qs)
        ch = True
        while ch:
            ch = False
            for i in range(len(qs) - 1):
                a, b = qs[i], qs[i + 1]
                if isinstance(a, T) or isinstance(b, T):
                    continue
                if a[1] is b[1] and AND(a[0], b[0]) == 0:
                    qs[i:i + 2] = [(OR(a[0], b[0]), a[1])]
                    ch = True
                    break
                if AND(a[0], b[0]) == 0 and id(b[1]) < id(a[1]):
                    qs[i], qs[i + 1] = b, a
                    ch = True
        return qs

    def as_item(q):
        return q if isinstance(q, T) else mk('item', q[0], q[1])
    return coll('vec', None, tuple(as_item(q) for q in order(go(tuple(as_pieces(v))))))


def doc(v):
    return items(call('doc', (strip(v),)))


def when_some(v, fn):
    """pieces for the content of an option"""
    v = strip(v)
    return TM.guard_pieces(fn(unsome(v)), some_guard(v))


def name_text(a, n):
    return a.app('utils::Name::str', n)


def elem_parts(a, e, part):
    """the parts of one production element, by its accessors"""
    pe = a.app(PE + '::elem', e)
    out = list(when_some(a.app(PE + '::id', e), lambda n: items(strip(name_text(a, n)))))
    out += when_some(a.app(EL + '::as_term', pe), part)
    out += when_some(a.app(EL + '::as_nonterm', pe), part)
    return out


def from_first(v):
    """what is shown for the first entry, then for each of the rest with something put between -> for every entry, with what is put between"""
    def go(ps):
        out = []
        for p in ps:
            if p.k == 'for':
                y, src, stop, body = p.a
                q = forp(y, src, stop, go(body))
                if q is not None:
                    out.append(q)
                if q is not None and q.k == 'for' and stop == 0 and src.k == 'skip' and src.a[1] == INT(1):
                    whole(out)
            else:
                out.append(p)
        return out

    def whole(out):
        y, src, _, body = out[-1].a
        E = src.a[0]
        g = nonempty(E)
        rest = explode(body)
        if any(isinstance(r, T) for r in rest):
            return
        first = [(B.constrain(subst_g(h, y, E), g), restrict(subst(w, {y: index(E, INT(0))}), g)) for h, w in rest]
        pairs = []
        i, j = len(first) - 1, len(out) - 2
        had = []
        while j >= 0 and out[j].k == 'item' and AND(out[j].a[0], NOT(g)) == 0 and out[j].a[0]:
            had = [(B.constrain(h, g), restrict(w, g)) for h, w in explode((out[j],))] + had
            j -= 1
            if len(had) >= len([1 for h, w in first if not is_const(w)]):
                m = match(first, had)
                if m is not None:
                    z = mk('elem', E, y.a[1])
                    TM.copy_marks(y, z)
                    new = []
                    for k, (h, w) in enumerate(rest):
                        h, w = subst_g(h, y, E, z), subst(w, {y: z})
                        h = B.constrain(h, g)
                        new.append(mk('item', h if k in m else AND(h, truth(TM.call('more', (w,)))), w))
                    f = forp(z, E, 0, new)
                    if f is not None:
                        out[j + 1:] = [f]
                        return

    def subst_g(h, y, E, z=None):
        t = subst(mk('item', h, mk('str', '')), {y: z or index(E, INT(0))})
        return t.a[0] if t is not None and t.k == 'item' else 0

    def match(first, had):
        """places in first of what was shown; the others are constants put between"""
        m = set()
        i = len(first)
        for h, w in reversed(had):
            i -= 1
            while i >= 0 and not (first[i][0] == h and first[i][1] is w):
                if not is_const(first[i][1]):
                    return None
                i -= 1
            if i < 0:
                return None
            m.add(i)
        return m if all(is_const(first[k][1]) for k in range(len(first)) if k not in m) else None
    return coll('vec', None, tuple(go(as_pieces(v))))


def only_item(v):
    ps = as_pieces(v)
    return ps[0].a[1] if len(ps) == 1 and ps[0].k == 'item' and ps[0].a[0] == 1 else None


def loops(v, depth=0):
    """the loops of a text, outermost first"""
    out = []

    def go(ps):
        for p in ps:
            if p.k == 'for':
                out.append(p)
                go(p.a[3])
    go(as_pieces(v))
    return out


def consts(ps, f=lambda s: True):
    return [(p[0], p[1]) for p in explode(tuple(q for q in ps if q.k == 'item')) if p[1].k == 'str' and f(p[1].a[0])]


def text_under(ps, g):
    """what the constants directly in these pieces show under g"""
    return tuple(v.a[0] for h, v in consts(ps) if AND(h, g) == g and g)


def pretty_doc(a):
    g = SYM('grammar')
    f = a.impl(GR, 'utils::ToDoc', 'to_doc')
    da = SYM('alloc')
    S = a.S(f, None, [g, da])
    v = from_first(strip(S.val))
    start = a.app(GR + '::start_nt', g)
    rules = a.collect(a.app(GR + '::rules', g))
    want = list(doc(start))

    def one_rule(r):
        out = list(doc(a.app(RU + '::head', r)))
        prods = a.collect(a.app(RU + '::prods', r))

        def one_prod(p):
            return each(a.app(PR + '::prod_elements', p), lambda e: elem_parts(a, e, doc)),
        for q in over(prods, one_prod):
            out.append(q)
        return out
    want += over(rules, one_rule)
    got = shown(v)
    w = shown(coll('vec', None, tuple(want)))
    a.same('the printed grammar shows the start symbol, every rule, production, element and identifier, in order', f, got, w, w=2500)
    a.no_panic('printing never panics', S)
    # constants: where and when
    ls = loops(v)
    prods_loop, elems_loop, rules_loop = None, None, None
    for p in ls:
        inner = [q for q in p.a[3] if q.k == 'for']
        if not inner:
            elems_loop = p
        elif all(not [z for z in q.a[3] if z.k == 'for'] for q in inner):
            prods_loop = p
        else:
            rules_loop = p
    if not a.ob('rules, productions and elements are printed in nested loops', len(ls) == 3 and prods_loop is not None and elems_loop is not None and rules_loop is not None, f, '%d loops' % len(ls)):
        return
    eps = 0
    for h, s in consts(prods_loop.a[3], lambda s: 'ε' in s):
        eps = OR(eps, h)
    a.iff('an empty production, and no other, is shown as ε', f, eps, NOT(nonempty(elems_loop.a[1])))
    a.ob('ε is not shown elsewhere', not [1 for p in (elems_loop, rules_loop) for h, s in consts(p.a[3], lambda s: 'ε' in s)] and not consts([q for q in as_pieces(v)], lambda s: 'ε' in s), f)
    g = nonempty(elems_loop.a[1])
    body = [under(q, g) for q in elems_loop.a[3]]
    e = elems_loop.a[0]
    pe = a.app(PE + '::elem', e)
    nt, idg = some_guard(a.app(EL + '::as_nonterm', pe)), some_guard(a.app(PE + '::id', e))
    for named, ng in (('', NOT(idg)), (' with an identifier', idg)):
        n, t = text_under(body, AND(ng, nt)), text_under(body, AND(ng, NOT(nt)))
        a.ob('nonterminals are marked%s' % named, n != t and ''.join(n).strip(), f, 'nonterminal %s, terminal %s' % (n, t))
    for kind, kg in (('nonterminal', nt), ('terminal', NOT(nt))):
        n, t = text_under(body, AND(kg, idg)), text_under(body, AND(kg, NOT(idg)))
        a.ob('an identifier is set apart from its %s' % kind, n != t and ''.join(n).strip(), f, 'with %s, without %s' % (n, t))
    for what, p in (('rules', rules_loop), ('productions', prods_loop), ('elements', elems_loop)):
        ps = tuple(under(q, nonempty(p.a[1])) for q in p.a[3] if q.k == 'item')
        ok = [1 for h, s in explode(ps) if (s.k == 'str' or s.a[0] == 'blank') and is_const(s) and apart(h)]
        a.ob('%s are kept apart' % what, ok, f)


def apart(g):
    """holds between any two entries: always, or for every entry that is not the last (or not the first)"""
    at_ = [B.atom_of[v] for v in B.support(g)]
    return all([y for y in subterms(x) if y.k == 'call' and y.a[0] == 'more'] for x in at_) and g != 0


def pretty_text(a):
    f = GR + '::to_pretty'
    g = SYM('grammar')
    S = a.S(f, None, [g])
    d = a.S(a.impl(GR, 'utils::ToDoc', 'to_doc'), None, [g, mk('const', 'arena')])
    v = strip(S.val)
    if v.k == 'call' and v.a[0] == 'format':
        v = only_item(v.a[1][0]) or v
    if v.k == 'call' and v.a[0] == 'Display':
        v = strip(v.a[1][0])
    a.same('the printed form is the rendering of the whole document', f, v, strip(d.val))
    a.no_panic('printing never panics', S)


def small_docs(a):
    """every other printable form shows what it is made of"""
    n = 0
    for f in sorted(a.p.bodies):
        if not (f.startswith('<') and f.endswith(' as utils::ToDoc>::to_doc')):
            continue
        adt = f[1:].split(' as ')[0]
        if adt in (GR, GB + 'RuleInner', GB + 'ProdInner', PE, EL) or adt not in a.p.adts:
            continue
        n += 1
        x = SYM('x')
        S = a.S(f, None, [x, SYM('alloc')])
        if adt == 'utils::Name':
            a.same('a name is shown as its text', f, shown(S.val), shown(coll('vec', None, items(strip(name_text(a, x))))))
            a.no_panic('printing never panics', S)
            continue
        vs = a.p.adts[adt]['variants']
        seen = []
        for i, va in enumerate(vs):
            g = is_variant(x, adt, i) if len(vs) > 1 else 1
            v = given(S.val, g) if g != 1 else strip(S.val)
            got = shown(v)
            text = tuple(s.a[0] for h, s in consts(as_pieces(v)))
            seen.append((text, not va['fields']))
            if not va['fields']:
                a.ob('a case without content is shown by a text', ''.join(text).strip(), f, va['name'])
            else:
                c = proj(x, adt, i, 0)
                c = given(c, g) if g != 1 else c
                ty = a.p.ty(va['fields'][0]['ty'], {})
                w = coll('vec', None, items(strip(name_text(a, c)))) if ty[0] == 'adt' and ty[1] == 'utils::Name' else coll('vec', None, doc(c))
                a.same('a wrapped value shows what is wrapped', f, got, shown(w))
        const = [t for t, e in seen if e]
        a.ob('cases without content are shown differently', len(set(const)) == len(const), f)
        a.no_panic('printing never panics', S)
    a.ob('printable forms were found', n >= 4, 'utils::ToDoc', str(n))


def written(a, f, x):
    w = SYM('out')
    KIND[w] = 'vec'
    S = a.S(f, None, [x, w])
    a.no_panic('printing never panics', S)
    a.ob('printing succeeds', S.val.k == 'agg' and S.val.a[1] == 0, f, show(S.val))
    v = strip(S.mem.get(('P', w), w))
    ok = v.k == 'coll' and v.a[1] is w
    a.ob('printing adds to what was written', ok, f, show(v)[:300])
    return coll('vec', None, tuple(v.a[2]) if ok else ())


def fields_of(v):
    """entries of a debug form: (kind, name, entries)"""
    d = only_item(v)
    if d is not None and d.k == 'call' and d.a[0] == 'debug':
        return d.a[1]
    return None


def has_field(a, rule, f, v, want):
    """one of the entries shows exactly the wanted value"""
    d = fields_of(v)
    vals = []
    if d is not None:
        for p in as_pieces(d[2]):
            if p.k == 'item' and p.a[0] == 1:
                w = p.a[1]
                vals.append(strip(proj(w, '()', 0, 1)) if d[0].a[0] in ('struct', 'map') else strip(w))
    else:
        for p in as_pieces(v):
            if p.k == 'item' and p.a[0] == 1 and p.a[1].k == 'call' and p.a[1].a[0] == 'Debug':
                vals.append(strip(p.a[1].a[1][0]))
    want = strip(want)
    a.ob(rule, [1 for w in vals if w is want or same_list(w, want)], f, 'shown %s\n  required %s' % ([show(w)[:400] for w in vals], show(want)[:600]))


def same_list(x, y):
    if kind_of(x) in ('vec', 'slice') and kind_of(y):
        return coll('vec', None, tuple(as_pieces(x))) is coll('vec', None, tuple(as_pieces(y)))
    return False


def debug_forms(a):
    x = SYM('x')
    f = a.impl(GR, DEBUG, 'fmt')
    v = written(a, f, x)
    has_field(a, 'the debug form of a grammar shows its rules in order', f, v, a.collect(a.app(GR + '::rules', x)))
    for what, obs in (('terminals', 'as_term'), ('nonterminals', 'as_nonterm')):
        def of_prod(p):
            el = lambda e: a.app(EL + '::' + obs, a.app(PE + '::elem', e))
            return each(a.app(PR + '::prod_elements', p), lambda e: when_some(el(e), lambda t: items(strip(t)))),
        want = coll('vec', None, tuple(over(a.collect(a.app(GR + '::prods', x)), of_prod)))
        has_field(a, 'the debug form of a grammar shows its %s in order' % what, f, v, want)
    f = a.impl(RU, DEBUG, 'fmt')
    v = written(a, f, x)
    has_field(a, 'the debug form of a rule shows its head', f, v, a.app(RU + '::head', x))
    has_field(a, 'the debug form of a rule shows its productions in order', f, v, a.collect(a.app(RU + '::prods', x)))
    f = a.impl(PR, DEBUG, 'fmt')
    v = written(a, f, x)
    has_field(a, 'the debug form of a production shows its head', f, v, a.app(PR + '::head', x))
    has_field(a, 'the debug form of a production shows its elements in order', f, v, a.app(PR + '::prod_elements', x))
    dbg = lambda v: items(call('Debug', (strip(v),)))
    f = a.impl(EL, DEBUG, 'fmt')
    v = written(a, f, x)
    want = list(when_some(a.app(EL + '::as_term', x), dbg)) + list(when_some(a.app(EL + '::as_nonterm', x), dbg))
    a.same('the debug form of an element shows it', f, shown(v), shown(coll('vec', None, tuple(want))))
    nt = some_guard(a.app(EL + '::as_nonterm', x))
    n, t = text_under(as_pieces(v), nt), text_under(as_pieces(v), NOT(nt))
    a.ob('nonterminals are marked in the debug form', n != t and ''.join(n).strip(), f, 'nonterminal %s, terminal %s' % (n, t))
    f = a.impl(PE, DEBUG, 'fmt')
    v = written(a, f, x)
    e = a.app(PE + '::elem', x)
    nm = a.app(PE + '::id', x)
    forms = []
    for ident in (lambda n: items(strip(name_text(a, n))), lambda n: items(call('Display', (strip(n),))), lambda n: items(call('Debug', (strip(n),)))):
        for el in (dbg(e), tuple(when_some(a.app(EL + '::as_term', e), dbg)) + tuple(when_some(a.app(EL + '::as_nonterm', e), dbg))):
            forms.append(shown(coll('vec', None, tuple(when_some(nm, ident)) + tuple(el))))
    got = shown(v)
    a.ob('the debug form of a production element shows its identifier and the element', [1 for w in forms if got is w], f, 'found %s' % show(got)[:900])


def helpers(a):
    """list, set, tuple and struct formatting helpers"""
    for fn, kind in (('list_fmt', 'list'), ('set_fmt', 'set'), ('tuple_fmt', 'tuple'), ('struct_fmt', 'struct')):
        f = 'utils::fmt::' + fn
        c, n = SYM('entries'), SYM('name')
        KIND[c] = 'vec'
        named = kind in ('tuple', 'struct')
        v = strip(a.app(f, *([n, c] if named else [c])))
        if not a.ob('the helper returns a printable value', v.k == 'agg', f, show(v)):
            continue
        g = a.impl(v.a[0], DEBUG, 'fmt')
        d = fields_of(written(a, g, v))
        if not a.ob('the helper shows one %s' % kind, d is not None and d[0].a[0] == kind, g, str(d and d[0])):
            continue
        if named:
            a.ob('the name is shown', strip(d[1]) is n or show(d[1]) in ('name', 'text(name)'), g, show(d[1]))
        x = first_free(c)
        if kind == 'struct':
            text = lambda t: t
            want = coll('vec', None, (forp(x, c, 0, items(TUP(proj(x, '()', 0, 0), proj(x, '()', 0, 1)))),))
            alt = coll('vec', None, (forp(x, c, 0, items(TUP(call('text', (proj(x, '()', 0, 0),)), proj(x, '()', 0, 1)))),))
            got = strip(coll('vec', None, tuple(as_pieces(d[2]))))
            a.ob('every entry is shown with its name, in order', got is want or got is alt, g, 'found %s\n  required %s' % (show(got), show(want)))
        else:
            a.same('every entry is shown, in order', g, coll('vec', None, tuple(as_pieces(d[2]))), coll('vec', None, (forp(x, c, 0, items(x)),)))


RULES = [('printed document', pretty_doc), ('printed text', pretty_text), ('printable parts', small_docs), ('debug forms', debug_forms), ('formatting helpers', helpers)]
