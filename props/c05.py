"""C05 cursors over productions: laws between the public operations of ProdState."""
from rules import *

LEVEL = 'proof'
EXPLAIN = ('Every public operation of ProdState is summarised from its MIR (all paths) as a gated value over a symbolic cursor; '
           'the laws of C05 are compared with these summaries for all cursors and grammars.')
PS = 'state::ProdState'


def base(a):
    s = SYM('s')
    prod = a.app(PS + '::prod', s)
    E = strip(a.app('grammar::base::Prod::prod_elements', prod))
    return s, prod, E


def cursor(a, s):
    """the integer component of a cursor, relative to from_start"""
    fs = fields(a.p, PS)
    out = []
    for i, n in enumerate(fs):
        v = proj(a.app(PS + '::from_start', SYM('p')), PS, 0, i)
        if v.k == 'int':
            out.append(i)
    return out


def start(a):
    f = PS + '::from_start'
    p = SYM('p')
    s0 = a.app(f, p)
    ix = cursor(a, None)
    a.ob('a fresh cursor stands before the first element', len(ix) == 1 and proj(s0, PS, 0, ix[0]) is INT(0), f, show(s0))
    a.same('a fresh cursor belongs to the given production', f, a.app(PS + '::prod', s0), p)
    a.no_panic('from_start does not panic', a.S(f))


def idx(a, s):
    ix = cursor(a, None)
    if len(ix) != 1:
        raise Missing('cursor position of ProdState')
    v = proj(s, PS, 0, ix[0])
    UNSIGNED.add(v)
    return ix[0], v


def elem_of(a, pe):
    return a.app('grammar::base::ProdElement::elem', pe)


def offset(a):
    s, prod, E = base(a)
    j, I = idx(a, s)
    n = SYM('n')
    UNSIGNED.add(n)
    pos = add(I, n)
    inside = lt(pos, length(E))
    a.same('looking ahead by n gives the n-th element after the cursor or nothing', PS + '::offset_elem', a.app(PS + '::offset_elem', s, n), opt(inside, elem_of(a, index(E, pos))))
    a.same('looking ahead by n gives the n-th element after the cursor or nothing', PS + '::offset_prod_elem', a.app(PS + '::offset_prod_elem', s, n), opt(inside, index(E, pos)))
    for f in ('offset_elem', 'offset_prod_elem'):
        a.no_panic('looking ahead never panics', a.S(PS + '::' + f), 1, allow=('overflow',))


def nxt(a):
    s, prod, E = base(a)
    j, I = idx(a, s)
    inside = lt(I, length(E))
    e = index(E, I)
    a.same('next element is the one at the cursor', PS + '::next_prod_elem', a.app(PS + '::next_prod_elem', s), opt(inside, e))
    a.same('next element is the one at the cursor', PS + '::next_elem', a.app(PS + '::next_elem', s), opt(inside, elem_of(a, e)))
    n = len(fields(a.p, PS))
    adv = upd(s, PS, 0, j, n, add(I, INT(1)))
    a.same('advancing moves past exactly the element it reports', PS + '::next_elem_state', a.app(PS + '::next_elem_state', s), opt(inside, TUP(e, adv)))
    for f in ('next_elem', 'next_prod_elem', 'next_elem_state', 'is_complete'):
        a.no_panic('cursor operations never panic', a.S(PS + '::' + f), 1, allow=('overflow',))


def complete(a):
    s, prod, E = base(a)
    j, I = idx(a, s)
    a.iff('complete exactly after the last element', PS + '::is_complete', truth(a.app(PS + '::is_complete', s)), le(length(E), I), le(I, length(E)))


def advif(a):
    s, prod, E = base(a)
    j, I = idx(a, s)
    f = PS + '::advance_if'
    e = SYM('e')
    n = len(fields(a.p, PS))
    adv = upd(s, PS, 0, j, n, add(I, INT(1)))
    r = a.app(f, s, e)
    inside = lt(I, length(E))
    a.same('conditional advancing happens exactly when the next element is the requested one', f, r, opt(AND(inside, eq(e, elem_of(a, index(E, I)))), adv))
    a.no_panic('advance_if does not panic', a.S(f), 1, allow=('overflow',))


def unchanged(a):
    for m in ('prod', 'offset_elem', 'offset_prod_elem', 'next_elem', 'next_prod_elem', 'next_elem_state', 'is_complete', 'advance_if', 'action_key'):
        S = a.S(PS + '::' + m)
        ch = [r for r in S.mem if r[0] == 'P']
        a.ob('cursor operations do not change the cursor', not ch, S.name, 'writes through its argument')
    a.same('action key of the production', PS + '::action_key', a.app(PS + '::action_key', SYM('s')), a.app('grammar::base::Prod::action_key', a.app(PS + '::prod', SYM('s'))))


def cloned(a):
    f = a.impl(PS, 'std::clone::Clone', 'clone')
    a.same('a copy of a cursor is the same cursor', f, a.app(f, SYM('s')), SYM('s'))


def made(a):
    """no other code makes or moves a cursor: every place that builds one is private to these operations"""
    adt = a.p.adts[PS]
    vis = [(f['name'], f['vis']) for f in adt['variants'][0]['fields'] if f['public'] if 'public' in f] if 'public' in adt['variants'][0]['fields'][0] else [(f['name'], f['vis']) for f in adt['variants'][0]['fields'] if f['vis'] == 'pub']
    a.ob('cursor fields are private', not vis, PS, str(vis))


RULES = [('fresh cursor', start), ('look-ahead', offset), ('next element', nxt), ('completeness', complete), ('conditional advance', advif), ('no side effects', unchanged), ('copies', cloned), ('encapsulation', made)]
