"""C18 buffer ranges."""
from rules import *

LEVEL = 'proof'
EXPLAIN = ('Range operations are summarised from MIR over a text as a sequence of characters with byte positions; every operation is compared with its required result separately for an empty range, '
           'a range of one character and a longer one, multi-character advancing by induction over its loop, and every position a range can get is shown to be the start or the end of the text or the end of a whole character.')
BR, BU, BI = 'utils::buffer::BufferRange', 'utils::buffer::Buffer', 'utils::buffer::BufferInner'


def U(n):
    s = SYM(n)
    UNSIGNED.add(s)
    return s


class R:
    """a symbolic range [s, e) of a buffer"""

    def __init__(self, a, tag='range'):
        self.a = a
        fs = fields(a.p, BR)
        r = SYM(tag)
        self.r = r
        # the position fields are the ends of the text of the range
        v = strip(a.app(BR + '::as_str', r))
        if not (v.k == 'call' and v.a[0] == 'substr'):
            raise Missing('text of a range: %s' % show(v))
        self.text, self.s, self.e = v.a[1]
        UNSIGNED.update((self.s, self.e))
        self.si = [i for i in range(len(fs)) if proj(r, BR, 0, i) is self.s]
        self.ei = [i for i in range(len(fs)) if proj(r, BR, 0, i) is self.e]
        if len(self.si) != 1 or len(self.ei) != 1:
            raise Missing('positions of a range')
        self.n = len(fs)
        self.len = call('strlen', (self.text,))
        UNSIGNED.add(self.len)

    def at(self, s, e=None):
        """this range with other ends"""
        v = upd(self.r, BR, 0, self.si[0], self.n, s)
        return v if e is None else upd(v, BR, 0, self.ei[0], self.n, e)

    def cases(self):
        """(name, number of characters, range, position after the first character, end, length of the text)"""
        P, d, h = U('p'), U('d'), U('h')
        w = TM.char_width(self.text, P)
        for name, e in (('empty', P), ('one character', add(P, w)), ('more characters', add(add(P, w), add(d, INT(1))))):
            yield name, self.at(P, e), P, add(P, w), e, add(e, h)

    def fix(self, f, n):
        """the guard f when the text has length n"""
        if f in (0, 1):
            return f
        return truth(replace_len(BOOL(f), self.len, n))


def replace_len(t, l, n):
    return TM.replace_term(t, l, n)


def new(a):
    f = BR + '::new'
    nm, t = SYM('source'), SYM('text')
    S = a.S(f, None, [nm, t])
    v = S.val
    R_ = R(a)
    s, e = proj(v, BR, 0, R_.si[0]), proj(v, BR, 0, R_.ei[0])
    got = strip(a.app(BR + '::as_str', v))
    a.ob('a new range starts at the beginning of its text', s is INT(0), f, show(s))
    ok = got.k == 'call' and got.a[0] == 'substr' and got.a[1][0] in (t, call('text', (t,))) and got.a[1][2] is call('strlen', (got.a[1][0],))
    a.ob('a new range covers its whole text', ok, f, show(got)[:300])


def read(a):
    R_ = R(a)
    f = BR + '::read_char_mut'
    g = BR + '::read_char'
    for name, r, P, nxt, e, n in R_.cases():
        S = a.S(f, None, [r])
        want = NONE if name == 'empty' else SOME(call('chr', (R_.text, P)))
        post = r if name == 'empty' else R_.at(nxt, e)
        a.same('reading returns the first character (%s)' % name, f, S.val, want)
        a.same('reading moves past exactly that character (%s)' % name, f, mget(S.mem, ('P', r)), post)
        for gd, w, fn, st in S.panics:
            a.never('reading does not panic (%s)' % name, f, R_.fix(gd, n), '%s in %s' % (w, fn))
        S = a.S(g, None, [r])
        want = NONE if name == 'empty' else SOME(TUP(call('chr', (R_.text, P)), post))
        a.same('reading a copy returns the character and the rest (%s)' % name, g, S.val, want)
        a.ob('reading a copy leaves the range (%s)' % name, mget(S.mem, ('P', r)) is r, g)
        for gd, w, fn, st in S.panics:
            a.never('reading does not panic (%s)' % name, g, R_.fix(gd, n), '%s in %s' % (w, fn))


def advance(a):
    R_ = R(a)
    cnt = U('n')
    f = BR + '::advance_n_mut'
    S = a.S(f, None, [R_.r, cnt])
    V = steps(a, f, S, R_, cnt)
    if V:
        stopped, F = V
        a.same('advancing returns exactly the characters passed', f, S.val, opt(NOT(stopped), call('substr', (R_.text, R_.s, F))))
        a.same('advancing moves past them, or leaves the range when there are too few', f, mget(S.mem, ('P', R_.r)), ite(stopped, R_.r, R_.at(F)))
        bounded(a, f, S, R_, F)
    f = BR + '::advance_n'
    S = a.S(f, None, [R_.r, cnt])
    V = steps(a, f, S, R_, cnt)
    if V:
        stopped, F = V
        a.same('advancing a copy returns the characters and the rest', f, S.val, opt(NOT(stopped), TUP(call('substr', (R_.text, R_.s, F)), R_.at(F))), in_bounds(R_, F))
        a.ob('advancing a copy leaves the range', mget(S.mem, ('P', R_.r)) is R_.r, f)
        bounded(a, f, S, R_, F)


def in_bounds(R_, F):
    return AND(AND(le(R_.s, F), le(R_.s, R_.e)), AND(le(F, R_.e), AND(le(R_.e, R_.len), le(F, R_.len))))


def steps(a, f, S, R_, cnt):
    """the loop takes one step per character, and stops early exactly when none is left"""
    ls = [L for L in S.loops]
    ok = len(ls) == 1 and getattr(ls[0], 'fold', False) and len(ls[0].mus) == 1 and hasattr(ls[0], 'gstop')
    a.ob('advancing is one loop over the characters', ok, f, '%d loops' % len(ls))
    if not ok:
        return None
    L = ls[0]
    mu = L.mus[0]
    a.same('advancing starts at the start of the range', f, L.inits[0], R_.s)
    src = strip(L.src)
    a.same('advancing takes n steps', f, length(src) if src.k != 'range' else TM.sub(src.a[1], src.a[0]), cnt)
    P, d = U('p'), U('d')
    w = TM.char_width(R_.text, P)
    for name, e in (('none left', P), ('one left', add(P, w)), ('more left', add(add(P, w), add(d, INT(1))))):
        def at(t):
            return rsub(rsub(t, {mu: P}), {R_.e: e})
        st = truth(at(BOOL(L.stop)))
        a.ob('a step fails exactly when no character is left (%s)' % name, st == (1 if name == 'none left' else 0), f, show_bdd(st))
        if name != 'none left':
            a.same('a step moves past exactly one character (%s)' % name, f, restrict(at(L.nexts[0]), NOT(st)), add(P, w))
    return L.gstop, strip(L.vals[0])


def bounded(a, f, S, R_, F):
    """with start <= position <= end <= length, which every step keeps, nothing is out of range"""
    x, y, h = U('x'), U('y'), U('h')
    for gd, w, fn, st in S.panics:
        t = BOOL(gd)
        for pos in [F] + [m for L in S.loops for m in L.mus]:
            t = TM.replace_term(t, pos, add(R_.s, x)) if pos is F else rsub(t, {pos: add(R_.s, x)})
        t = replace_len(t, R_.len, add(R_.e, h))
        t = rsub(t, {R_.e: add(add(R_.s, x), y)})
        a.never('advancing never panics', f, truth(t), '%s in %s' % (w, fn))


def suffix(a):
    f = BR + '::remove_suffix'
    p, q = R(a, 'range'), R(a, 'suffix')
    S = a.S(f, None, [p.r, q.r])
    buf = [i for i in range(p.n) if i not in (p.si[0], p.ei[0])]
    same = truth(a.app(BU + '::ref_eq', proj(p.r, BR, 0, buf[0]), proj(q.r, BR, 0, buf[0])))
    ok = AND(same, AND(eq(p.e, q.e), le(p.s, q.s)))
    a.same('removing a suffix leaves the text before it', f, S.val, p.at(p.s, q.s), ok)
    fail = OR(*[g for g, _, _, _ in S.panics])
    a.iff('suffixes of another buffer, end or longer than the range are refused', f, fail, NOT(ok))
    f = BU + '::ref_eq'
    x, y = SYM('x'), SYM('y')
    g = truth(a.app(f, x, y))
    at = [B.atom_of[v] for v in B.support(g)]
    ok = len(at) == 1 and at[0].k == 'ptreq' and g == B.var(at[0])
    a.ob('same buffer means the same shared text', ok and {show(u) for u in at[0].a} == {show(proj(x, BU, 0, 0)), show(proj(y, BU, 0, 0))}, f, show_bdd(g))


def simple(a):
    R_ = R(a)
    f = BR + '::empty'
    a.iff('empty exactly when nothing is left', f, truth(a.app(f, R_.r)), eq(R_.s, R_.e))
    f = BR + '::byte_len'
    a.same('byte length of the range', f, a.app(f, R_.r), TM.sub(R_.e, R_.s))
    f = a.impl(BR, 'std::clone::Clone', 'clone')
    a.same('a copy is the same range', f, a.app(f, R_.r), R_.r)
    for f in ('empty', 'byte_len', 'as_str', 'remove_suffix', 'start_pos', 'end_pos'):
        fn = BR + '::' + f
        S = a.S(fn)
        a.ob('looking at a range does not change it', not [r for r in S.mem if r[0] == 'P' and S.mem[r] is not r[1]], fn)
    f = 'utils::buffer::BufferRangeKey::as_str'
    k = SYM('key')
    a.same('a range key shows the text of its range', f, a.app(f, k), a.app(BR + '::as_str', proj(k, 'utils::buffer::BufferRangeKey', 0, 0)))


def sealed(a):
    """ranges are made only by the operations above"""
    for t in (BR, BU, BI):
        pub = [x['name'] for x in a.p.adts[t]['variants'][0]['fields'] if x['public']]
        a.ob('positions are only set by range operations', not pub, t, str(pub))
    mut = []
    for n, b in a.p.bodies.items():
        if b['kind'] != 'fn' or b.get('derived'):
            continue
        for bb in b['blocks']:
            for s in bb['s']:
                if s[0] == '=' and isinstance(s[2], list) and s[2][0] == 'agg' and BR in str(s[2][1]):
                    mut.append(n)
    allowed = {BR + '::new', BR + '::remove_suffix', BR + '::read_char', BR + '::advance_n'}
    a.ob('ranges are built only by range operations', all(m.split('::{')[0].startswith(BR + '::') or m.startswith(BR) for m in mut), BR, str(mut))


RULES = [('new range', new), ('reading', read), ('advancing', advance), ('removing a suffix', suffix), ('reading ends', simple), ('encapsulation', sealed)]
