"""C27 names."""
from rules import *

LEVEL = 'proof'
EXPLAIN = ('Every operation of Name is summarised from MIR: the text of a new name is the given text, accessors, comparison and printed forms give that text, the mutable accessor gives the '
           'text of its own name after unsharing it, and the stored text cannot be changed through a shared reference.')
NM = 'utils::Name'
ORD_ = 'std::cmp::Ordering'


def text(a):
    t = SYM('text')
    n = a.app(NM + '::new', t)
    f = NM + '::str'
    got = a.app(f, n)
    ok = strip(got) is t or show(got) == 'text(text)'
    a.ob('a name shows the text it was made from', ok, f, show(got))
    a.no_panic('making a name never panics', a.S(NM + '::new', None, [t]))
    return got


def shown(a):
    n = SYM('name')
    s = a.app(NM + '::str', n)
    f = a.impl(NM, 'std::convert::AsRef<str>', 'as_ref')
    a.same('accessors show the same text', f, a.app(f, n), s)
    for tr in ('Debug', 'Display'):
        f = a.impl(NM, 'std::fmt::' + tr, 'fmt')
        w = SYM('out')
        KIND[w] = 'vec'
        S = a.S(f, None, [n, w])
        a.same('printed forms show exactly the text', f, mget(S.mem, ('P', w)), coll('vec', w, items(s)))
        a.ob('printing succeeds', S.val.k == 'agg' and S.val.a[1] == 0, f, show(S.val))
        a.no_panic('printing does not panic', S)
    f = a.impl(NM, 'utils::ToDoc', 'to_doc')
    a.same('printed forms show exactly the text', f, a.app(f, n, SYM('alloc')), coll('vec', None, items(s)))
    f = a.impl(NM, 'std::clone::Clone', 'clone')
    a.same('a clone is an equal name', f, a.app(f, n), n)
    for fn in a.find(lambda n, b: n.startswith('<&str as grammar::base::builder::BuilderInto<%s>>' % NM)):
        v = a.app(fn, SYM('text'))
        got = strip(a.app(NM + '::str', v))
        a.ob('a name made from text while building shows that text', got is SYM('text') or show(got) == 'text(text)', fn, show(got))


def elements(a):
    for ty in ('Terminal', 'NonTerminal'):
        T = 'grammar::base::element_types::' + ty
        t = SYM('text')
        S = a.S(T + '::new', None, [t])
        a.no_panic('making a terminal or nonterminal never panics', S)
        f = a.impl(T, 'utils::ToDoc', 'to_doc')
        v = a.app(f, a.app(T + '::new', t), SYM('alloc'))
        a.same('a terminal or nonterminal made from text prints that text', f, v, coll('vec', None, items(t)))
        f = a.impl(T, 'std::clone::Clone', 'clone')
        a.same('a clone is an equal terminal or nonterminal', f, a.app(f, SYM('x')), SYM('x'))


def compared(a):
    x, y = SYM('x'), SYM('y')
    sx, sy = a.app(NM + '::str', x), a.app(NM + '::str', y)
    f = a.impl(NM, 'std::cmp::PartialEq', 'eq')
    a.iff('names are equal exactly when their texts are', f, truth(a.app(f, x, y)), eq(sx, sy))
    f = a.impl(NM, 'std::cmp::Ord', 'cmp')
    a.same('names are ordered by their texts', f, a.app(f, x, y), compare(sx, sy))


def mutable(a):
    n = SYM('name')
    f = NM + '::make_mut'
    S = a.S(f, None, [n])
    r = S.val
    ok = r.k == 'ref' and r.a[0] == ('P', n)
    got = rread(n, r.a[1]) if ok else r
    a.ob('changing goes to the text of this name', ok and got is strip(a.app(NM + '::str', n)), f, show(r))
    a.ob('the text is unchanged until written', not [1 for k, v in S.mem.items() if k[0] == 'P' and v is not k[1]], f)
    a.no_panic('the mutable accessor works for shared names too', S)
    # the only way the engine turns a shared text into a mutable place is Rc::make_mut, which unshares it; raw ways are excluded here
    tys = str([a.p.ty(x['ty'], {}) for x in a.p.adts[NM]['variants'][0]['fields']])
    a.ob('stored text cannot change while shared', not [w for w in ('Cell', 'Mutex', 'RwLock', 'Atomic', 'ptr', 'UnsafeCell') if w in tys], NM, tys)
    a.ob('the text is only reachable through these operations', not any(x['public'] for x in a.p.adts[NM]['variants'][0]['fields']), NM)
    for fn, b in a.p.bodies.items():
        for bb in b['blocks']:
            t = bb['t']
            if t.get('k') == 'call':
                nm = str(t['func'][1].get('fndef', {}).get('fn', '')) if isinstance(t['func'][1], dict) else ''
                if nm.startswith('std::rc::') and any(w in nm for w in ('get_mut_unchecked', 'as_ptr', 'from_raw', 'into_raw')):
                    a.ob('no raw access to shared text', False, fn, nm[:200])
    a.ob('no raw access to shared text', True, NM)


RULES = [('text', text), ('shown', shown), ('terminals and nonterminals', elements), ('compared', compared), ('mutable accessor', mutable)]
