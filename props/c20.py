"""C20 token streams."""
from rules import *

LEVEL = 'proof'
EXPLAIN = ('The stream made from a collection, the stream after n steps and one more step are summarised from MIR for an arbitrary collection and arbitrary n; '
           'by induction on n every step yields the n-th token and the stream after n+1 steps, and nothing after the last one.')
VT, TK = 'parsers::VecTokenStream', 'parsers::Token'


def nxt(a):
    return a.impl(VT, 'parsers::TokenStream', 'next')


def after(a, n):
    """the stream after n steps, extrapolated from the first two steps (checked inductively below)"""
    c = SYM('collection')
    KIND[c] = 'vec'
    s0 = a.app(VT + '::from_into_iter', c)
    f = nxt(a)

    def step(s):
        r = a.app(f, s)
        return proj(unsome(restrict(r, some_guard(r))), '()', 0, 1)
    s1 = strip(step(s0))
    if s1.k != 'agg' or s0.k != 'agg':
        raise Missing('state of the token stream')
    fs = []
    for i, fld in enumerate(fields(a.p, VT)):
        x, y = strip(proj(s0, VT, 0, i)), strip(proj(s1, VT, 0, i))
        if y is x:
            fs.append(x)
            continue
        d = TM.sub(y, x)
        if d.k != 'int':
            raise Missing('step of the token stream (field %s)' % fld)
        fs.append(TM.add(x, scale(n, d.a[0])))
    return c, s0, AGG(VT, 0, tuple(fs))


def order(a):
    n = SYM('n')
    UNSIGNED.add(n)
    c, s0, sn = after(a, n)
    f = nxt(a)
    a.same('a new stream stands before the first token', VT + '::from_into_iter', subst(sn, {n: INT(0)}), s0)
    S = a.S(f, None, [sn])
    inv = le(n, length(c))
    _, _, sn1 = after(a, TM.add(n, INT(1)))
    a.same('step n yields token n and moves one token on, and nothing after the last', f, S.val, opt(lt(n, length(c)), TUP(index(c, n), sn1)), inv)
    a.no_panic('stepping never panics', S, inv)
    a.no_panic('making a stream never panics', a.S(VT + '::from_into_iter', None, [c]))


def persistent(a):
    f = nxt(a)
    s = SYM('stream')
    S = a.S(f, None, [s])
    a.ob('a step does not change the stream it is taken from', not [r for r in S.mem if r[0] == 'P'], f, 'writes through its argument')
    f = a.impl(VT, 'std::clone::Clone', 'clone')
    a.same('a copy of a stream is the same stream', f, a.app(f, s), s)
    from_ty = str([a.p.ty(x['ty'], {}) for x in a.p.adts[VT]['variants'][0]['fields']])
    shared = [w for w in ('Cell', 'Mutex', 'RwLock', 'Atomic', 'ptr') if w in from_ty]
    a.ob('copies share nothing that can change', not shared, VT, from_ty)
    a.ob('streams only change through steps', not any(x['public'] for x in a.p.adts[VT]['variants'][0]['fields']), VT)
    f = TK + '::new'
    k, v = SYM('kind'), SYM('value')
    a.same('a token has the kind and value it was made from', f, a.app(f, k, v), AGG(TK, 0, tuple(k if n == 'kind' else v for n in fields(a.p, TK))))


RULES = [('tokens in order', order), ('persistence', persistent)]
