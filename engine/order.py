"""Laws of comparison: the summaries of eq / cmp / partial_cmp over all orderings of their components."""
from rules import *

REFCMP = 'grammar::base::cmp_wrappers::RefCompare'
X, Y, Z = SYM('x'), SYM('y'), SYM('z')


def undiscr(f):
    """comparisons of discriminants in terms of the variants"""
    def atom(a):
        if a.k in ('eq', 'lt') and a.a[0].k == 'discr' and a.a[1].k == 'discr':
            x, y = a.a
            n = len(NVAR.get(x.a[1], []))
            out = 0
            for i in range(n):
                for j in range(n):
                    if (a.k == 'eq' and i == j) or (a.k == 'lt' and i < j):
                        out = OR(out, AND(is_variant(x.a[0], x.a[1], i), is_variant(y.a[0], y.a[1], j)))
            return out
        if a.k == 'ptreq' and all(t.k == 'fld' and t.a[1] == REFCMP and t.a[0].k == 'fld' for t in a.a):
            return eq(a.a[0].a[0], a.a[1].a[0])      # the equality of a reference wrapper, whose own body is decided separately
        return B.var(a)
    if f < 2:
        return f
    return B.compose(f, atom)


def rebind(f, m):
    return subst_bdd(f, m) if f > 1 else f


class Cmp:
    """less, equal, greater guards over (x, y)"""

    def __init__(self, l, e, g):
        self.l, self.e, self.g = undiscr(l), undiscr(e), undiscr(g)

    def at(self, x, y):
        m = {X: x, Y: y}
        return [undiscr(rebind(f, m)) for f in (self.l, self.e, self.g)]


def whole(f):
    return any(a.k in ('eq', 'lt') and {a.a[0], a.a[1]} == {X, Y} for a in (B.atom_of[v] for v in B.support(f))) if f > 1 else False


def expand(f, C):
    """calls back to the type's own comparison"""
    def atom(a):
        if a.k == 'eq' and {a.a[0], a.a[1]} == {X, Y}:
            return C.e
        if a.k == 'lt' and {a.a[0], a.a[1]} == {X, Y}:
            return C.l if a.a[0] is X else C.g
        return B.var(a)
    return B.compose(f, atom) if f > 1 else f


def components(f):
    """projections u with u(x) compared to u(y)"""
    out = []
    for v in B.support(f) if f > 1 else []:
        a = B.atom_of[v]
        if a.k in ('eq', 'lt', 'ptreq'):
            p, q = a.a
            if X not in p.fv:
                p, q = q, p
            if X in p.fv and Y in q.fv and Y not in p.fv and X not in q.fv:
                if a.k == 'ptreq':
                    p, q = mk('pt', p), mk('pt', q)
                if subst(p, {X: Y}) is q:
                    out.append(p)
        elif a.k == 'le':
            c, m = lin_of(a.a[0])
            xs = [t for t in m if X in t.fv and Y not in t.fv]
            for t in xs:
                if subst(t, {X: Y}) in m:
                    out.append(t)
    return sorted(set(out), key=lambda t: t.id)


def axioms(us, syms):
    ax = 1
    for u in us:
        t = {s: subst(u, {X: s}) for s in syms}
        for w in t.values():
            if u in UNSIGNED:
                UNSIGNED.add(w)
        e = lambda p, q: eq(t[p], t[q])
        l = lambda p, q: glt(t[p], t[q])
        for p in syms:
            for q in syms:
                if p is q:
                    continue
                ax = AND(ax, NOT(AND(e(p, q), l(p, q))), NOT(AND(l(p, q), l(q, p))), OR(e(p, q), l(p, q), l(q, p)))
                for r in syms:
                    if r is p or r is q:
                        continue
                    ax = AND(ax, OR(NOT(AND(e(p, q), e(q, r))), e(p, r)))
                    ax = AND(ax, OR(NOT(AND(l(p, q), l(q, r))), l(p, r)))
                    ax = AND(ax, OR(NOT(AND(e(p, q), l(q, r))), l(p, r)))
                    ax = AND(ax, OR(NOT(AND(l(p, q), e(q, r))), l(p, r)))
    return ax


def ordering(v):
    return [is_variant(v, ORD, i) for i in range(3)]


def prep(a, adt):
    """summaries of the comparison of `adt` on symbolic x, y"""
    r = {}
    for tr, m in (('std::cmp::PartialEq', 'eq'), ('std::cmp::PartialOrd', 'partial_cmp'), ('std::cmp::Ord', 'cmp')):
        try:
            f = a.impl(adt, tr, m)
        except Missing:
            r[m] = None
            continue
        r[m] = a.S(f, None, [X, Y])
    return r


def get_cmp(a, adt, contracts=None):
    """-> (E guard, Cmp, P guards) or None after reporting"""
    r = prep(a, adt)
    where = adt
    C = None
    for m in ('cmp', 'partial_cmp'):
        if r[m] is None:
            continue
        v = r[m].val
        if m == 'partial_cmp':
            v = unsome(v)
        gs = ordering(v)
        if not any(whole(g) for g in gs):
            C = Cmp(*gs)
            break
    E = truth(r['eq'].val) if r['eq'] else None
    if r['cmp'] is None and r['partial_cmp'] is None:
        return E, None, None, r
    if C is None:
        a.ob('comparison is well founded', False, where, 'cmp and partial_cmp are only defined through each other')
        return None
    P = None
    if r['partial_cmp']:
        v = r['partial_cmp'].val
        P = [undiscr(expand(AND(some_guard(v), g), C)) for g in ordering(unsome(v))]
    if r['cmp']:
        C = Cmp(*[expand(g, C) for g in ordering(r['cmp'].val)])
    if E is not None:
        E = undiscr(expand(E, C))
    return E, C, P, r


def laws(a, adt, pre=1):
    got = get_cmp(a, adt)
    if got is None:
        return None
    E, C, P, r = got
    fn = adt
    if E is not None and C is not None:
        live = OR(C.l, C.e, C.g)
        a.iff('equal exactly when compared as equal', fn, AND(E, live), C.e)
    if C is None:
        return E
    if P is not None and r['cmp'] is not None:
        for got_, want, w in zip(P, (C.l, C.e, C.g), ('less', 'equal', 'greater')):
            a.iff('partial comparison is the total one (%s)' % w, fn, got_, want)
    us = components(OR(AND(C.l, NOT(C.e)), 0)) if False else sorted(set(components(C.l) + components(C.e) + components(C.g)), key=lambda t: t.id)
    ax2 = axioms(us, [X, Y])
    live = OR(C.l, C.e, C.g)
    a.never('gives exactly one answer', fn, AND(ax2, OR(AND(C.l, C.e), AND(C.l, C.g), AND(C.e, C.g))))
    l2, e2, g2 = C.at(Y, X)
    for p, q, w in ((C.l, g2, 'less/greater'), (C.e, e2, 'equal'), (C.g, l2, 'greater/less')):
        a.iff('comparing the other way round gives the reversed answer (%s)' % w, fn, p, q, AND(ax2, live))
    ax3 = axioms(us, [X, Y, Z])
    l_yz, e_yz, g_yz = C.at(Y, Z)
    l_xz, e_xz, g_xz = C.at(X, Z)
    a.never('less is transitive', fn, AND(ax3, C.l, l_yz, NOT(l_xz)))
    a.never('equal values compare alike', fn, AND(ax3, C.e, OR(AND(l_yz, NOT(l_xz)), AND(g_yz, NOT(g_xz)), AND(e_yz, NOT(e_xz)))))
    lx, ex, gx = C.at(X, X)
    a.never('every value equals itself', fn, OR(lx, gx))
    for s in [r[m] for m in ('eq', 'partial_cmp', 'cmp') if r[m]]:
        a.no_panic('comparing does not panic', s, pre)
    return E


def field_eq(a, adt, only=None, x=X, y=Y):
    """equality of all the parts of two values"""
    d = a.p.adts[adt]
    out = 0
    for i, v in enumerate(d['variants']):
        g = AND(is_variant(x, adt, i), is_variant(y, adt, i))
        for j, f in enumerate(v['fields']):
            if only is not None and f['name'] not in only:
                continue
            p, q = proj(x, adt, i, j), proj(y, adt, i, j)
            ty = a.p.ty(f['ty'], {})
            for w in (p, q):
                mark(w, ty)
            g = AND(g, eq(p, q))
        out = OR(out, g)
    return out
