"""C15 tree handles stay valid; contents are shared and append-only."""
from rules import *
from props.trees import *

LEVEL = 'proof'
EXPLAIN = ('Every operation of the tree module is summarised from MIR as a state change of one tree, and all observers (alternatives of a node, content, kind, value, action, children) are evaluated before and after it for arbitrary handles; '
           'validity and contents must be preserved, alternatives must change exactly as requested, and re-adding any content must give its own alternative (an invariant shown inductively over the operations).')

OPS = {}


def op(name):
    def d(f):
        OPS[name] = f
        return f
    return d


# arguments, and the change each operation is allowed to make
@op(TH + '::make_node')
def _(t):
    return [t.h]


@op(TH + '::make_leaf_node')
def _(t):
    return [t.h, SYM('kind'), SYM('value')]


@op(TH + '::make_leaf_alt')
def _(t):
    return [t.h, SYM('kind'), SYM('value')]


def children(t):
    """child nodes of this tree"""
    xs = SYM('children')
    KIND[xs] = 'vec'
    return xs


@op(TH + '::make_branch_node')
def _(t):
    return [t.h, SYM('action'), children(t)]


@op(TH + '::make_branch_alt')
def _(t):
    return [t.h, SYM('action'), children(t)]


@op(ND + '::add_alt')
def _(t):
    return [t.part(ND, 'x'), t.part(AL, 'y')]


@op(ND + '::add_all')
def _(t):
    return [t.part(ND, 'x'), t.part(ND, 'z')]


class Obs:
    """what can be seen of a tree in a state"""

    def __init__(self, a, t, state):
        self.a, self.t, self.s = a, t, state

    def run(self, fn, *args):
        return self.t.run(fn, list(args), self.s)

    def alts(self, n):
        S = self.run(ND + '::alts', n)
        return S.surv, as_set(self.a.collect(S.val))

    def content(self, x):
        S = self.run(AL + '::content', x)
        return S.surv, S.val

    def leaf(self, x):
        """(guard, kind, value) seen through an alternative"""
        a = self.a
        g, v = self.content(x)
        i = variant(a, NC, 'Leaf')
        l = proj(v, NC, i, 0)
        k, w = self.run(LF + '::kind', l), self.run(LF + '::value', l)
        return AND(g, is_variant(v, NC, i), k.surv, w.surv), k.val, w.val

    def branch(self, x):
        a = self.a
        g, v = self.content(x)
        i = variant(a, NC, 'Branch')
        l = proj(v, NC, i, 0)
        k, w = self.run(BR + '::action', l), self.run(BR + '::nodes', l)
        return AND(g, is_variant(v, NC, i), k.surv, w.surv), k.val, a.collect(w.val)


def as_set(v):
    return coll('set', None, tuple(as_pieces(v)))


def same_part(a, adt, x, y):
    return truth(a.app(a.impl(adt, 'std::cmp::PartialEq', 'eq'), x, y))


def tree_fns(a):
    for n, b in a.p.bodies.items():
        if b['kind'] == 'fn' and n.startswith((T, '<' + T)) and not b.get('derived') and (b['reachable'] or b['exported']):
            yield n, b


def writers(a):
    """the operations that change a tree are the known ones; everything else leaves it unchanged"""
    t = Tree(a)
    for n, b in sorted(tree_fns(a)):
        if n in OPS:
            continue
        args = []
        for i in range(b['nargs']):
            ty = a.p.ty(b['locals'][i + 1]['ty'], {})
            while ty[0] == 'ref':
                ty = ty[2]
            if ty[0] == 'adt' and ty[1] == TH:
                args.append(t.h)
            elif ty[0] == 'adt' and ty[1] in PARTS and len(a.p.adts[ty[1]]['variants']) == 1:
                args.append(t.part(ty[1], 'p%d' % i))
            else:
                args.append(SYM('p%d' % i))
        S = a.S(n, None, args)
        w = [r for r in S.mem if r[0] == 'C']
        a.ob('only the operations that add to a tree change it', not w, n, str([show(S.mem[r])[:300] for r in w]), key='writer|' + n)
        from props import trees
    for n in OPS:
        a.ob('operation of the tree', a.has(n), n)


def preserve(a):
    t = Tree(a)
    for name, mk_ in OPS.items():
        if not a.has(name):
            raise Missing(name)
        S = t.run(name, mk_(t))
        o0, o1 = Obs(a, t, t.s0), Obs(a, t, S.state)
        ok = S.surv
        x, n = t.part(AL, 'old'), t.part(ND, 'oldnode')
        q = SYM('q')
        g0, c0 = o0.content(x)
        g1, c1 = o1.content(x)
        g = AND(ok, g0)
        short_ = name.split('::')[-2] + '::' + name.split('::')[-1]
        a.never('alternatives stay valid under ' + short_, name, AND(g, NOT(g1)))
        for kind in ('Leaf', 'Branch'):
            i = variant(a, NC, kind)
            a.iff('alternatives keep their kind under ' + short_, name, is_variant(c1, NC, i), is_variant(c0, NC, i), g)
        h0, k0, v0 = o0.leaf(x)
        h1, k1, v1 = o1.leaf(x)
        h = AND(ok, h0)
        a.never('leaves stay readable under ' + short_, name, AND(h, NOT(h1)))
        a.same('the kind of a leaf never changes under ' + short_, name, k1, k0, h)
        a.same('the value of a leaf never changes under ' + short_, name, v1, v0, h)
        h0, k0, v0 = o0.branch(x)
        h1, k1, v1 = o1.branch(x)
        h = AND(ok, h0)
        a.never('branches stay readable under ' + short_, name, AND(h, NOT(h1)))
        a.same('the action of a branch never changes under ' + short_, name, k1, k0, h)
        a.same('the children of a branch never change under ' + short_, name, v1, v0, h)
        n0, a0 = o0.alts(n)
        n1, a1 = o1.alts(n)
        h = AND(ok, n0)
        a.never('nodes stay valid under ' + short_, name, AND(h, NOT(n1)))
        # which alternatives an existing node gets
        add = 0
        args = mk_(t)
        if name == ND + '::add_alt':
            add = AND(same_part(a, ND, n, args[0]), TM.eq(q, args[1]))
        elif name == ND + '::add_all':
            add = AND(same_part(a, ND, n, args[0]), has(o0.alts(args[1])[1], q))
        a.iff('an existing node has the alternatives it had and those added to it, under ' + short_, name, has(a1, q), OR(has(a0, q), add), h)


def news(a):
    t = Tree(a)
    o0 = Obs(a, t, t.s0)
    n = t.part(ND, 'oldnode')
    q = SYM('q')
    for name in ('make_node', 'make_leaf_node', 'make_branch_node'):
        f = TH + '::' + name
        args = OPS[f](t)
        S = t.run(f, args)
        o1 = Obs(a, t, S.state)
        r = S.val
        g, al = o1.alts(r)
        a.never('a new node is valid', f, AND(S.surv, NOT(g)))
        a.never('a new node differs from every earlier one', f, AND(S.surv, o0.alts(n)[0], same_part(a, ND, r, n)))
        if name == 'make_node':
            a.never('a new node has no alternatives', f, AND(S.surv, has(al, q)))
            continue
        alt = name.replace('_node', '_alt')
        B_ = t.run(TH + '::' + alt, args)
        a.iff('a node made with content has exactly the alternative of that content', f, has(al, q), TM.eq(q, B_.val), S.surv)
        a.same('a node made with content shares it like an alternative made alone', f, content_view(a, o1, B_.val), content_view(a, Obs(a, t, B_.state), B_.val), S.surv)
    f = TO + '::new'
    for f in (TO + '::new', a.impl(TO, 'std::default::Default', 'default')):
        S = a.S(f, None, [])
        h = a.app(TO + '::handle', S.val)
        cell = strip(proj(h, TH, 0, 0))
        s = root_content(('C', cell))
        t2 = Tree(a)
        if s is None:
            raise Missing('content of a new tree')
        o = Obs(a, t2, s)
        a.never('a new tree has no nodes', f, o.alts(t2.part(ND, 'n'))[0])
        a.never('a new tree has no alternatives', f, o.content(t2.part(AL, 'x'))[0])


def content_view(a, o, x):
    """everything that can be seen of an alternative, as one value"""
    g, k, v = o.leaf(x)
    h, b, c = o.branch(x)
    return phi([(TUP(INT(0), k, v), g), (TUP(INT(1), b, c), h), (TUP(INT(2)), NOT(OR(g, h)))])


def reports(a):
    t = Tree(a)
    o0 = Obs(a, t, t.s0)
    ch = variant(a, WCH, 'Changed')
    q = SYM('q')
    f = ND + '::add_alt'
    args = OPS[f](t)
    S = t.run(f, args)
    g, al = o0.alts(args[0])
    a.iff('adding an alternative reports a change exactly when it is new', f, is_variant(S.val, WCH, ch), NOT(has(al, args[1])), S.surv)
    a.never('adding to a valid node of the same tree never panics', f, AND(g, NOT(S.surv)))
    f = ND + '::add_all'
    args = OPS[f](t)
    S = t.run(f, args)
    g, al = o0.alts(args[0])
    g2, al2 = o0.alts(args[1])
    new = pieces_new(al, al2)
    a.iff('merging nodes reports a change exactly when an alternative is new', f, is_variant(S.val, WCH, ch), new, S.surv)
    a.never('merging valid nodes of the same tree never panics', f, AND(g, g2, NOT(S.surv)))
    for n in ('make_node', 'make_leaf_node', 'make_leaf_alt'):
        S = t.run(TH + '::' + n, OPS[TH + '::' + n](t))
        a.never('making parts never panics', TH + '::' + n, NOT(S.surv))


def pieces_new(old, new):
    """something in `new` is not in `old`"""
    f = 0
    for p in as_pieces(new):
        if p.k == 'item':
            f = OR(f, AND(p.a[0], NOT(has(old, p.a[1]))))
        elif p.k == 'for':
            inner = pieces_new(old, coll('set', None, p.a[3]))
            f = OR(f, exists(p.a[0], p.a[1], p.a[2], inner))
        else:
            raise Unsupported(p.k)
    return f


# ---------------------------------------------------------------- interning
def own_type(a, ty):
    return ty[0] == 'adt' and ty[1] in a.p.adts and not ty[1].startswith(('std::', 'alloc::', 'core::'))


def places(a, s, ty, out):
    """the (map to numbers, vector) fields of a tree state"""
    while ty[0] == 'ref':
        ty = ty[2]
    if not own_type(a, ty) or len(a.p.adts[ty[1]]['variants']) != 1:
        return
    for j, f in enumerate(a.p.adts[ty[1]]['variants'][0]['fields']):
        fy = a.p.ty(f['ty'], {})
        v = proj(s, ty[1], 0, j)
        if fy[0] != 'adt':
            continue
        if fy[1].endswith('::BTreeMap') and fy[2][1:2] == (('other', 'usize'),):
            out[0].append(v)
        elif fy[1].endswith('::Vec'):
            out[1].append(v)
        else:
            places(a, v, fy, out)


def state_type(a):
    ty = a.p.ty(a.p.adts[TH]['variants'][0]['fields'][0]['ty'], {})
    while ty[0] == 'ref' or (ty[0] == 'adt' and not own_type(a, ty)):
        ty = ty[2] if ty[0] == 'ref' else ty[2][0]
    return ty


def pairs(a, s):
    out = ([], [])
    places(a, s, state_type(a), out)
    return [(m, v) for m in out[0] for v in out[1]]


def bounded(m, v, k):
    return OR(NOT(has(m, k)), TM.le(TM.add(load(m, k), INT(1)), length(v)))


def instances(a, t, which, g):
    """bounds of the numbers that the map of the first state gives for the keys in g"""
    ms = pairs(a, t.s0)
    f = 1
    for w in which:
        m, v = ms[w]
        m = strip(m)
        for k in sorted({x.a[1] for x in subterms(tuple(TM.B.atom_of[v] for v in TM.B.support(g))) if x.k == 'load' and strip(x.a[0]) is m}, key=show):
            f = AND(f, bounded(m, v, k))
    return f


def inv3(a, t):
    """the pairs for which every number in the map is a valid place in the vector: true of a new tree and kept by every operation"""
    ms = pairs(a, t.s0)
    k = SYM('anykey')
    ok = []
    for w in range(len(ms)):
        good = True
        for f in (TO + '::new', a.impl(TO, 'std::default::Default', 'default')):
            S = a.S(f, None, [])
            s = root_content(('C', strip(proj(a.app(TO + '::handle', S.val), TH, 0, 0))))
            good = good and not possible(has(pairs(a, s)[w][0], k))
        for name, mk_ in OPS.items():
            if good:
                S = t.run(name, mk_(t))
                g = AND(S.surv, NOT(bounded(*pairs(a, S.state)[w], k)))
                good = not possible(AND(g, bounded(*ms[w], k), instances(a, t, [w], g)))
        if good:
            ok.append(w)
    return ok


def never(a, t, known, rule, fn, g):
    if known and possible(g):
        g = AND(g, instances(a, t, known, g))
    return a.never(rule, fn, g)


def leaf_in(a, t, s, k, v):
    S = t.run(TH + '::make_leaf_alt', [t.h, k, v], s)
    return S


def branch_in(a, t, s, k, ns):
    return t.run(TH + '::make_branch_alt', [t.h, k, ns], s)


def inv1(a, t, s, x):
    """adding the content of a valid alternative again gives that alternative"""
    o = Obs(a, t, s)
    g, k, v = o.leaf(x)
    L = leaf_in(a, t, s, k, v)
    h, b, ns = o.branch(x)
    R = branch_in(a, t, s, b, ns)
    return AND(OR(NOT(g), AND(L.surv, same_part(a, AL, L.val, x))), OR(NOT(h), AND(R.surv, same_part(a, AL, R.val, x))))


def inv2(a, t, s, which, k, v):
    """the alternative given for a content has that content"""
    if which == 'leaf':
        S = leaf_in(a, t, s, k, v)
        g, k2, v2 = Obs(a, t, S.state).leaf(S.val)
        return AND(g, TM.eq(k2, k), TM.eq(v2, v)), S
    S = branch_in(a, t, s, k, v)
    g, k2, v2 = Obs(a, t, S.state).branch(S.val)
    return OR(NOT(S.surv), AND(g, TM.eq(k2, k), TM.eq(idx_of(a, v2), idx_of(a, v)))), S


def idx_of(a, ns):
    """child lists as what identifies their nodes within one tree"""
    i = [j for j, f in enumerate(a.p.adts[ND]['variants'][0]['fields']) if a.p.ty(f['ty'], {})[:2] != ('adt', TH)]
    return strip(cmap(ns, lambda n: TUP(*[proj(n, ND, 0, j) for j in i]) if len(i) != 1 else proj(n, ND, 0, i[0])))


def interning(a):
    t = Tree(a)
    known = inv3(a, t)
    s0 = t.s0
    x = t.part(AL, 'old')
    cs = {'leaf': (SYM('kind'), SYM('value')), 'branch': (SYM('action'), children(t))}
    ds = {'leaf': (SYM('kind2'), SYM('value2')), 'branch': (SYM('action2'), mark_vec(SYM('children2')))}
    ins = {'leaf': leaf_in, 'branch': branch_in}
    own = {w: TH + '::make_%s_alt' % w for w in cs}
    for w, c in cs.items():
        pre2, S = inv2(a, t, s0, w, *c)
        pre = AND(inv1(a, t, s0, x), pre2, S.surv)
        never(a, t, known, 'the content of an alternative given again gives the same alternative, after make_%s_alt' % w, own[w], AND(pre, NOT(inv1(a, t, S.state, x))))
        # the new one itself
        g1 = inv1(a, t, S.state, S.val)
        never(a, t, known, 'equal contents give the same alternative (%s)' % w, own[w], AND(pre, NOT(truth_again(a, t, S, w, c, ins))))
        for w2, d in ds.items():
            p2, _ = inv2(a, t, s0, w2, *d)
            q2, S2 = inv2(a, t, S.state, w2, *d)
            never(a, t, known, 'an alternative given for a %s has exactly that content, after make_%s_alt' % (w2, w), own[w], AND(pre, p2, S2.surv, NOT(q2)))
            if w2 == w:
                same = AND(TM.eq(c[0], d[0]), TM.eq(c[1], d[1]) if w == 'leaf' else TM.eq(idx_of(a, c[1]), idx_of(a, d[1])))
            else:
                same = 0
            never(a, t, known, 'different contents give different alternatives (%s, %s)' % (w, w2), own[w],
                    AND(pre, p2, q2, S2.surv, same_part(a, AL, S.val, S2.val), NOT(same)))


def kept(a):
    """the interning facts hold for a new tree and are kept by every operation"""
    t = Tree(a)
    known = inv3(a, t)
    x = t.part(AL, 'old')
    cs = {'leaf': (SYM('kind'), SYM('value')), 'branch': (SYM('action'), children(t))}
    ds = {'leaf': (SYM('kind2'), SYM('value2')), 'branch': (SYM('action2'), mark_vec(SYM('children2')))}
    for f in (TO + '::new', a.impl(TO, 'std::default::Default', 'default')):
        S = a.S(f, None, [])
        s = root_content(('C', strip(proj(a.app(TO + '::handle', S.val), TH, 0, 0))))
        for w, d in ds.items():
            g, _ = inv2(a, t, s, w, *d)
            never(a, t, known, 'the first alternative made for a %s has its content' % w, f, NOT(g))
    for name, mk_ in OPS.items():
        S = t.run(name, mk_(t))
        w1 = [w for w in cs if ('_%s_' % w) in name]
        pre = AND(S.surv, inv1(a, t, t.s0, x), *[inv2(a, t, t.s0, w, *cs[w])[0] for w in w1])
        short_ = name.split('::')[-1]
        never(a, t, known, 'the content of an alternative given again gives the same alternative, also after ' + short_, name, AND(pre, NOT(inv1(a, t, S.state, x))))
        for w, d in ds.items():
            p2, _ = inv2(a, t, t.s0, w, *d)
            q2, S2 = inv2(a, t, S.state, w, *d)
            never(a, t, known, 'an alternative given for a %s has exactly that content, also after %s' % (w, short_), name, AND(pre, p2, S2.surv, NOT(q2)))


def truth_again(a, t, S, w, c, ins):
    S2 = ins[w](a, t, S.state, *c)
    return OR(NOT(S2.surv), same_part(a, AL, S.val, S2.val))


def mark_vec(s):
    KIND[s] = 'vec'
    return s


RULES = [('who changes a tree', writers), ('append only', preserve), ('new parts', news), ('change reports', reports), ('interning', interning), ('interning kept', kept)]
