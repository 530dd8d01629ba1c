"""C19 line and column positions."""
from rules import *
from props.c18 import BR, BU, BI, U, R

LEVEL = 'proof'
EXPLAIN = ('The line scan is summarised from MIR as a loop over characters with positions and shown, by induction over its rounds, to end a line exactly at each CR, LF or CR LF and at the end of the text and to start '
           'the next line right after it; the position of an offset is compared, separately for offsets inside a line and inside a break, with the line found by the binary search over these lines and the graphemes before it.')
TP = 'utils::buffer::TextPos'


def scan(a):
    f = BR + '::new'
    nm, t = SYM('source'), SYM('text')
    S = a.S(f, None, [nm, t])
    R_ = R(a)
    got = strip(a.app(BR + '::as_str', S.val))
    text = got.a[1][0]
    n = call('strlen', (text,))
    UNSIGNED.add(n)
    ls = [L for L in S.loops if not getattr(L, 'fold', False)]
    if not a.ob('the lines are found in one scan of the text', len(ls) == 1, f, '%d loops' % len(ls)):
        return
    L = ls[0]
    P = [i for i, m in enumerate(L.mus) if L.cont is NOT(le(n, m)) or not possible(XOR(L.cont, NOT(le(n, m))))]
    V = [i for i, m in enumerate(L.mus) if kind_of(L.inits[i]) == 'vec']
    if not a.ob('the scan covers the text to its end', len(P) == 1 and len(V) == 1, f, 'continues while %s' % show_bdd(L.cont)):
        return
    p, rv = L.mus[P[0]], L.mus[V[0]]
    a.ob('the scan starts at the beginning of the text', L.inits[P[0]] is INT(0), f, show(L.inits[P[0]]))
    a.ob('there are no lines before the scan', L.inits[V[0]] is EMPTYC('vec'), f, show(L.inits[V[0]]))
    ch = call('chr', (text, p))
    UNSIGNED.add(ch)
    cr, lf = ieq(ch, INT(13)), ieq(ch, INT(10))
    brk = OR(cr, lf)
    q = add(p, TM.char_width(text, p))
    ch2 = call('chr', (text, q))
    UNSIGNED.add(ch2)
    two = AND(cr, NOT(le(n, q)), ieq(ch2, INT(10)))
    nxt = ite(two, add(q, TM.char_width(text, q)), q)
    c = L.cont
    # CR and LF are one byte long
    w1, w2 = call('cwx', (text, p)), call('cwx', (text, add(p, INT(1))))

    def rounds(rule, got, want, g):
        for cnd, ws in ((AND(g, NOT(brk)), ()), (AND(g, brk, NOT(two)), (w1,)), (AND(g, two), (w1, w2))):
            if cnd == 0:
                continue
            t = [BOOL(cnd), strip(got), strip(want)]
            for w in ws:
                t = [TM.replace_term(x, w, INT(0)) for x in t]
            if truth(t[0]):
                a.same(rule, f, t[1], t[2], truth(t[0]))
    rounds('each round moves past one character or one CR LF pair', L.nexts[P[0]], nxt, c)
    ps = L.nexts[V[0]].a[2] if L.nexts[V[0]].k == 'coll' else ()
    it = [x for x in ps if x.k == 'item']
    if not a.ob('each round ends at most one line', L.nexts[V[0]].k == 'coll' and L.nexts[V[0]].a[1] is rv and len(ps) == 1 and len(it) == 1, f, show(L.nexts[V[0]])[:900]):
        return
    g, pair = it[0].a[0], it[0].a[1]
    a.iff('a line ends exactly at each line break', f, g, brk, c)
    a.same('a line ends right before its break', f, proj(pair, '()', 0, 1), p, AND(c, brk))
    start = proj(pair, '()', 0, 0)
    nx = dict(zip(L.mus, L.nexts))
    ini = dict(zip(L.mus, L.inits))
    a.same('the first line starts at the beginning of the text', f, subst(start, ini), INT(0))
    rounds('a line goes on until its break', subst(start, nx), start, AND(c, NOT(brk)))
    rounds('the next line starts right after the break', subst(start, nx), nxt, AND(c, brk))
    # after the scan
    b = SYM('buf')
    bs = calls_in(a.S(BU + '::get_text_pos_from_byte_offset', None, [b, U('off')]).val, 'binary_search_by')
    bi = [i for i in range(R_.n) if BU in str(a.p.ty(a.p.adts[BR]['variants'][0]['fields'][i]['ty'], {}))]
    want = subst(bs[0].a[1][0], {b: proj(S.val, BR, 0, bi[0])}) if bs else None
    if not a.ob('the text after the last break is the last line', want is not None and want.k == 'coll' and want.a[1] is not None and want.a[1].k == 'loopv' and len(want.a[2]) == 1 and want.a[2][0].k == 'item' and want.a[2][0].a[0] == 1, f, show(want)[-600:] if want is not None else ''):
        return
    fin = want.a[1]
    last = want.a[2][0].a[1]
    out = {m: mk('loopv', fin.a[0], i) if len(fin.a) == 2 and isinstance(fin.a[1], int) else None for i, m in enumerate(L.mus)}
    a.same('the last line ends at the end of the text', f, proj(last, '()', 0, 1), n)
    st = TM.replace_term(subst(start, out), out[p], n) if out[p] is not None else start
    a.same('the last line starts after the last break', f, TM.replace_term(proj(last, '()', 0, 0), out[p], n), st)
    a.no_panic('the scan never panics', S)


def position(a):
    f = BU + '::get_text_pos_from_byte_offset'
    b, off = SYM('buf'), U('off')
    S = a.S(f, None, [b, off])
    v = S.val
    bs = calls_in(v, 'binary_search_by')
    if not a.ob('the line is found by one search', len(bs) == 1, f, str([show(x)[:300] for x in bs])):
        return
    bs = bs[0]
    lines, lam = bs.a[1]
    x = mk('elem', lines, 0)
    lo, hi = proj(x, '()', 0, 0), proj(x, '()', 0, 1)
    UNSIGNED.update((lo, hi))
    cmpv = apply_lam(lam, x)
    O = 'std::cmp::Ordering'
    h, d, z = U('h'), U('d'), U('z')
    for nm, i, e_, o_ in (('before the offset', 0, add(lo, h), add(add(add(lo, h), d), INT(1))), ('holding the offset', 1, add(add(lo, d), h), add(lo, d)), ('after the offset', 2, None, None)):
        if i == 2:
            v2 = TM.replace_term(TM.replace_term(TM.replace_term(cmpv, hi, add(lo, h)), off, d), lo, add(add(d, z), INT(1)))
        else:
            v2 = TM.replace_term(TM.replace_term(cmpv, off, o_), hi, e_)
        a.iff('the search knows the lines %s' % nm, f, is_variant(v2, O, i), 1)
    i = U('line')
    d, h, z = U('d'), U('h'), U('z')
    fs = fields(a.p, TP)
    li, ci, oi = a_line(a)
    for case in ('in the line', 'in the break'):
        found = case == 'in the line'
        w = OK(i) if found else ERR(add(i, INT(1)))
        lx = index(lines, i)
        s, e = proj(lx, '()', 0, 0), proj(lx, '()', 0, 1)
        UNSIGNED.update((s, e))

        def case_of(t):
            t = TM.replace_term(t, bs, w)
            # s <= off <= e  or  s <= e < off
            if found:
                t = TM.replace_term(t, e, add(add(s, d), h))
                t = TM.replace_term(t, off, add(s, d))
            else:
                t = TM.replace_term(t, e, add(s, h))
                t = TM.replace_term(t, off, add(add(add(s, h), d), INT(1)))
            n = [c for c in calls_in(t, 'strlen')]
            for c in n:
                t = TM.replace_term(t, c, add(add(add(add(s, h), d), z), INT(1)))
            return TM.replace_term(t, length(lines), add(add(i, INT(1)), U('rest')))
        t = case_of(v)
        k = d if found else h
        end = add(add(s, d), h) if found else add(s, h)
        o = add(s, d) if found else add(add(add(s, h), d), INT(1))
        a.same('the position names the line of the offset (%s)' % case, f, proj(t, TP, 0, li), i)
        a.same('the position keeps the offset (%s)' % case, f, proj(t, TP, 0, oi), o)
        col = proj(t, TP, 0, ci)
        gs = calls_in(col, 'grapheme_indices')
        ok = len(gs) == 1
        a.ob('columns are counted in grapheme clusters of one line (%s)' % case, ok and show(gs[0].a[1][1:]).count('true') == 1, f, show(col)[:600])
        if ok:
            line = gs[0].a[1][0]
            okl = line.k == 'call' and line.a[0] == 'substr' and line.a[1][1] is s and line.a[1][2] is end
            a.ob('columns are counted in the line of the offset (%s)' % case, okl, f, show(line))
            y = mk('elem', gs[0], 0)
            g = le(k, proj(y, '()', 0, 0))
            a.ob('the column counts the clusters that begin before the offset (%s)' % case, counts_before(col, gs[0], k, g, y), f, show(col)[:1200])
        for gd, wh, fn, stk in S.panics:
            a.never('finding a position never panics (%s)' % case, f, truth(case_of(BOOL(gd))) if gd not in (0, 1) else gd, '%s in %s' % (wh, fn))


def counts_before(col, gs, k, g, y):
    """is col the number of elements y of gs before the first with g?"""
    for v, gd in branches(col):
        if v.k == 'len' and v.a[0] is gs or v is length(gs):
            if possible(XOR(gd, NOT(exists(y, gs, 0, g)))):
                return False
        elif v.k == 'ix' and v.a[0].k == 'first':
            fi = v.a[0]
            var, src, c = fi.a
            if src is not gs or possible(XOR(subst_bdd(c, {var: y}), g)) or possible(XOR(gd, exists(y, gs, 0, g))):
                return False
        elif len(branches(col)) == 1 and v.k == 'len':
            c = v.a[0]
            return length(c) is length(coll('vec', None, (forp(y, gs, 0, [mk('item', NOT(g), y)]),)))
        else:
            return False
    return True


def apply_lam(lam, x):
    bound, body = lam.a
    bound = bound[0] if isinstance(bound, tuple) else bound
    return subst(body, {bound: x}) if bound is not x else body


def a_line(a):
    """the value fields of a position behind line, column and byte offset"""
    fs = fields(a.p, TP)
    t = SYM('pos')
    out = []
    for n in ('line', 'column', 'byte_offset'):
        if a.has(TP + '::' + n):
            v = a.app(TP + '::' + n, t)
        else:
            v = proj(t, TP, 0, fs.index(n))
        ix = [i for i in range(len(fs)) if proj(t, TP, 0, i) is v]
        a.ob('a position shows its %s' % n, len(ix) == 1, TP + '::' + n, show(v))
        out.append(ix[0] if ix else fs.index(n))
    a.ob('a position shows its line, column and offset separately', len(set(out)) == 3, TP, str(out))
    return out


def ends(a):
    R_ = R(a)
    f = BU + '::get_text_pos_from_byte_offset'
    for g, o in ((BR + '::start_pos', R_.s), (BR + '::end_pos', R_.e)):
        bi = [i for i in range(R_.n) if BU in str(a.p.ty(a.p.adts[BR]['variants'][0]['fields'][i]['ty'], {}))]
        want = a.app(f, proj(R_.r, BR, 0, bi[0]), o)
        a.same('a range reports the positions of its own ends', g, a.app(g, R_.r), want)


RULES = [('line scan', scan), ('positions', position), ('range ends', ends)]
