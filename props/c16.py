"""C16 parts of different trees are never mixed."""
from rules import *
from props.trees import *
from props import c15

LEVEL = 'proof'
EXPLAIN = ('Every operation that changes a tree is summarised from MIR with parts of two arbitrary trees: the paths that return must imply that the trees are the same object, and on the paths that panic because they differ the state at the panic must show the nodes and alternatives of both trees unchanged. '
           'Handle identity is reduced to identity of the owning object, and every part reached from a part must carry its handle.')


def two(a):
    return Tree(a), Tree(a, 'other')


def kids(u):
    xs = SYM('children')
    KIND[xs] = 'vec'
    return xs


def kid_tree(a, c):
    """the tree a node belongs to"""
    return lock_of(a, a.app(ND + '::handle', c))


def lock_of(a, h):
    return strip(proj(h, TH, 0, 0))


MIX = {
    ND + '::add_alt': lambda t, u: [t.part(ND, 'x'), u.part(AL, 'y')],
    ND + '::add_all': lambda t, u: [t.part(ND, 'x'), u.part(ND, 'z')],
    TH + '::make_branch_alt': lambda t, u: [t.h, SYM('action'), kids(u)],
    TH + '::make_branch_node': lambda t, u: [t.h, SYM('action'), kids(u)],
}


def same_tree(a, t, u):
    return truth(a.app(TH + '::is_same', t.h, u.h))


def mixing(a):
    t, u = two(a)
    x, n = SYM('old_index'), SYM('oldnode_index')
    for f, mk_ in MIX.items():
        if not a.has(f):
            raise Missing(f)
        args = mk_(t, u)
        S = a.S(f, None, args)
        if any(y is kids(u) for y in args):
            c = first_free(kids(u))
            differ = exists(c, kids(u), 0, NOT(TM.ptr_eq(kid_tree(a, c), t.lock)))
        else:
            differ = NOT(TM.ptr_eq(t.lock, u.lock))
        ends = OR(*[p.happens() for p in S.panics]) if S.panics else 0
        a.never('returns only when all parts belong to one tree', f, AND(S.surv, NOT(ends), differ))
        for p in S.panics:
            g = AND(p[0], differ)
            if not possible(g):
                continue
            unchanged(a, f, p, g, (t, u))


def unchanged(a, f, p, g, trees):
    for r, v in (p.mem or {}).items():
        if r[0] != 'C':
            a.ob('refusing parts of another tree changes nothing', False, f, 'changes %s before the panic (%s)' % (r, p[1])) if r[0] == 'C' else None
    for t in trees:
        s1 = strip((p.mem or {}).get(t.root, t.s0))
        if s1 is t.s0:
            a.ob('refusing parts of another tree changes nothing', True, f)
            continue
        o0, o1 = c15.Obs(a, t, t.s0), c15.Obs(a, t, s1)
        x, n, q = t.part(AL, 'old'), t.part(ND, 'oldnode'), SYM('q')
        b, al0 = o0.alts(n)
        c, al1 = o1.alts(n)
        a.iff('refusing parts of another tree changes no node', f, has(al1, q), has(al0, q), AND(g, b))
        a.never('refusing parts of another tree removes no node', f, AND(g, b, NOT(c)))
        a.same('refusing parts of another tree changes no alternative', f, c15.content_view(a, o1, x), c15.content_view(a, o0, x), g)


def all_changes(a):
    """nothing else combines parts"""
    for n, b in sorted(c15.tree_fns(a)):
        parts = 0
        for i in range(b['nargs']):
            if mentions_part(a, b['locals'][i + 1]['ty']):
                parts += 1
        if parts < 2 or n in MIX:
            continue
        args, trees = [], []
        for i in range(b['nargs']):
            ty = a.p.ty(b['locals'][i + 1]['ty'], {})
            while ty[0] == 'ref':
                ty = ty[2]
            t = Tree(a, 'tree%d' % i)
            trees.append(t)
            if ty[0] == 'adt' and ty[1] == TH:
                args.append(t.h)
            elif ty[0] == 'adt' and ty[1] in PARTS and len(a.p.adts[ty[1]]['variants']) == 1:
                args.append(t.part(ty[1], 'p%d' % i))
            else:
                args.append(SYM('p%d' % i))
        S = a.S(n, None, args)
        w = [r for r in S.mem if r[0] == 'C']
        a.ob('only operations that check the trees of their parts change a tree', not w, n, 'changes %s' % [str(r) for r in w], key='mix|' + n)


def mentions_part(a, tid, depth=0):
    ty = a.p.ty(tid, {})
    while ty[0] == 'ref':
        ty = ty[2]
    return ty[0] == 'adt' and ty[1] in PARTS


def identity(a):
    o, r = SYM('owner1'), SYM('owner2')
    H = lambda x: a.app(TO + '::handle', mk('pt', x)) if False else a.app(TO + '::handle', x)
    h1, h2 = H(o), H(r)
    l1, l2 = lock_of(a, h1), lock_of(a, h2)
    f = TH + '::is_same'
    want = TM.ptr_eq(l1, l2)
    a.ob('a handle refers to its owner', o in l1.fv and r in l2.fv and want not in (0, 1), TO + '::handle', show(h1))
    a.iff('two handles are the same tree exactly when they come from the same owner', f, truth(a.app(f, h1, h2)), want)
    a.iff('a handle is the same tree as itself', f, truth(a.app(f, h1, h1)), 1)
    a.no_panic('comparing handles does not panic', a.S(f, None, [h1, h2]))
    import order
    got = order.get_cmp(a, TH)
    if got is not None:
        g = a.impl(TH, 'std::cmp::PartialEq', 'eq')
        a.iff('equal handles are handles of the same tree', g, got[0], TM.ptr_eq(lock_of(a, order.X), lock_of(a, order.Y)))
    c = a.impl(TH, 'std::clone::Clone', 'clone')
    a.same('a copied handle is the same tree', c, a.app(c, h1), h1)


def carried(a):
    """parts reached from a part belong to its tree"""
    t = Tree(a)
    for n, b in sorted(c15.tree_fns(a)):
        if b.get('nargs', 0) < 1:
            continue
        ty = a.p.ty(b['locals'][1]['ty'], {})
        while ty[0] == 'ref':
            ty = ty[2]
        if ty[0] != 'adt' or ty[1] not in PARTS or len(a.p.adts[ty[1]]['variants']) != 1:
            continue
        if not n.startswith(T):
            continue
        rest = []
        ok = True
        for i in range(1, b['nargs']):
            ty2 = a.p.ty(b['locals'][i + 1]['ty'], {})
            while ty2[0] == 'ref':
                ty2 = ty2[2]
            if ty2[0] == 'adt' and ty2[1] in PARTS and ty2[1] != NC:
                rest.append(t.part(ty2[1], 'p%d' % i) if ty2[1] != TH else t.h)
            else:
                s = SYM('p%d' % i)
                rest.append(s)
        self_ = t.h if ty[1] == TH else t.part(ty[1], 'self')
        if n.endswith('to_dot'):
            continue
        S = a.S(n, None, [self_] + rest)
        bad = foreign(a, S.val, t)
        a.ob('what is reached from a part belongs to the same tree', not bad, n, 'carries %s' % ', '.join(show(x)[:200] for x in bad))


def foreign(a, v, t):
    return [x for x in subterms(strip(v)) if x.k == 'agg' and x.a[0] == TH and strip(x.a[2][0]) is not t.lock]


RULES = [('mixing trees', mixing), ('all combining operations', all_changes), ('identity', identity), ('handles carried', carried)]
