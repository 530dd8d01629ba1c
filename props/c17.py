"""C17 the dot rendering shows the reachable forest."""
from rules import *
from props.trees import *

LEVEL = 'proof'
TECHNIQUE = 'fixed-point loop summaries from MIR: the shown nodes are a least solution whose rules are compared with the alternatives and children the accessors give'
EXPLAIN = ('What is handed to the graph writer is summarised from MIR: the shown nodes must be exactly the least set holding the rendered node and closed under alternatives and children (as the public accessors give them), '
           'the edges exactly those between shown nodes and their alternatives and children, and ids and labels are compared as texts. The writer itself (crate dot) is trusted.')
OPT = 'std::option::Option'


class Dot:
    def __init__(self, a):
        self.a = a
        self.walk = {}
        for n in a.p.bodies:
            if n.startswith('<') and '{' not in n and (' as dot::GraphWalk' in n or ' as dot::Labeller' in n):
                self.walk.setdefault(n.rsplit('>::', 1)[1], []).append(n)
        self.t = Tree(a)
        self.root = self.t.part(ND, 'root')
        self.f = ND + '::to_dot'
        self.S = a.S(self.f, None, [self.root])
        self.render = [args for n, args, g in self.S.calls if n == 'dot::render']
        self.index = {adt: [i for i, fl in enumerate(a.p.adts[adt]['variants'][0]['fields']) if a.p.ty(fl['ty'], {})[0] == 'other'] for adt in (ND, AL)}
        for adt, fs in self.index.items():
            if len(fs) != 1:
                raise Missing('the index of %s' % adt)

    def fn(self, n):
        if len(self.walk.get(n, ())) != 1:
            raise Missing('%s of the graph: %s' % (n, self.walk.get(n)))
        return self.walk[n][0]

    def idx(self, adt, v):
        return proj(v, adt, 0, self.index[adt][0])

    def handle(self, adt, i):
        fs = []
        for k, fl in enumerate(self.a.p.adts[adt]['variants'][0]['fields']):
            fs.append(i if k in self.index[adt] else self.t.h)
        return AGG(adt, 0, tuple(fs))


def calls_of(x, name):
    return [y for y in subterms(x) if y.k == 'call' and y.a[0] == name]


WRAP = ('std::io::Cursor::into_inner', 'std::io::Cursor::new', 'std::string::String::from_utf8', 'std::string::String::from_utf8_lossy', 'std::io::Cursor::get_ref', 'std::borrow::Cow::into_owned',
        'std::io::Cursor::get_mut', 'std::string::String::from_utf8_unchecked', 'std::str::from_utf8')


def unwrapped(v):
    """the bytes a string or writer is made of"""
    while True:
        v = strip(v)
        if v.k == 'call' and v.a[0] in WRAP and len(v.a[1]) == 1:
            v = v.a[1][0]
        elif v.k == 'fld' and strip(v.a[0]).k == 'call':
            v = v.a[0]
        else:
            return v


def text(a):
    d = Dot(a)
    f = d.f
    if not a.ob('one graph is rendered', len(d.render) == 1, f, str(len(d.render))):
        return
    P, w = d.render[0]
    a.ob('the graph is rendered into an empty writer', unwrapped(w) is coll('vec', None, ()) or show(unwrapped(w)) in ('vec()', "''", 'text()'), f, show(w)[:300])
    out = unwrapped(d.S.val)
    a.ob('the result is what was rendered', out.k == 'call' and out.a[0] == 'dot::render@1' and tuple(out.a[1]) == tuple(d.render[0]), f, show(d.S.val)[:600])
    a.no_panic('rendering only fails with the writer', d.S, allow=('unwrap of Err', 'expect of Err'))


def printer(d):
    if len(d.render) != 1:
        raise Missing('one rendered graph')
    return strip(d.render[0][0])


def uncow(v):
    v = strip(v)
    while v.k == 'agg' and v.a[0] == 'std::borrow::Cow' and len(v.a[2]) == 1:
        v = strip(v.a[2][0])
    return v


def listing(a, v):
    v = uncow(v)
    return v if v.k == 'coll' else strip(a.collect(v))


def shown(a, d):
    """what is listed: [(element of the least solution, guard, node of the graph)], the least solution"""
    S = a.S(d.fn('nodes'), None, [printer(d)])
    v = listing(a, S.val)
    out, L = [], None
    for p in as_pieces(v):
        src = strip(p.a[1]) if p.k == 'for' and p.a[2] in (0, None) else None
        if src is None or any(q.k != 'item' for q in p.a[3]) or L not in (None, src):
            raise Missing('shown nodes: %s' % show(v)[:400])
        L = src
        out += [(p.a[0], q.a[0], q.a[1]) for q in p.a[3]]
    return S, out, L


def as_set(v):
    return coll('set', None, tuple(as_pieces(v)))


def eta(v, g):
    """a value taken apart and put together again is the value"""
    v = strip(v)
    if v.k == 'agg' and v.a[0] == '()':
        return AGG('()', v.a[1], tuple(eta(x, g) for x in v.a[2]))
    if v.k == 'agg' and v.a[2]:
        x = v.a[2][0]
        if x.k == 'fld' and tuple(v.a[2]) == tuple(proj(x.a[0], v.a[0], v.a[1], i) for i in range(len(v.a[2]))) and AND(g, NOT(is_variant(x.a[0], v.a[0], v.a[1]))) == 0:
            return x.a[0]
    return v


def eta_pieces(ps, g=1):
    out = []
    for p in ps:
        if p.k == 'item':
            out.append(mk('item', p.a[0], eta(p.a[1], AND(g, p.a[0]))))
        elif p.k == 'for':
            out.append(forp(p.a[0], p.a[1], p.a[2], eta_pieces(p.a[3], g)))
        else:
            out.append(p)
    return out


def invalid(a, d, k, x):
    """x is not (or a part reached from it is not) in the tree"""
    isn = is_variant(x, k.adt, k.n)
    i, j = proj(x, k.adt, k.n, 0), proj(x, k.adt, k.al, 0)
    c = a.S(AL + '::content', None, [d.handle(AL, j)])
    return OR(AND(isn, NOT(a.S(ND + '::alts', None, [d.handle(ND, i)]).surv)), AND(NOT(isn), NOT(c.surv)))


class Kinds:
    """the graph nodes that stand for nodes and for alternatives"""

    def __init__(self, a, d, init):
        ps = [p for p in as_pieces(init)]
        v = strip(ps[0].a[1]) if len(ps) == 1 and ps[0].k == 'item' and ps[0].a[0] == 1 else None
        if v is None or v.k != 'agg' or v.a[0] not in a.p.adts or len(a.p.adts[v.a[0]]['variants']) != 2:
            raise Missing('the first shown node: %s' % show(init)[:300])
        self.adt, self.n = v.a[0], v.a[1]
        self.al = 1 - self.n
        self.d = d
        self.first = v

    def node(self, h):
        return AGG(self.adt, self.n, (self.d.idx(ND, h),))

    def alt(self, h):
        return AGG(self.adt, self.al, (self.d.idx(AL, h),))


def next_of(a, d, k, x):
    """pieces: what is next to a shown node"""
    isn = is_variant(x, k.adt, k.n)
    i, j = proj(x, k.adt, k.n, 0), proj(x, k.adt, k.al, 0)
    alts = a.collect(a.app(ND + '::alts', d.handle(ND, i)))
    out = TM.guard_pieces(over(alts, lambda y: items(k.alt(y))), isn)
    c = a.app(AL + '::content', d.handle(AL, j))
    b = variant(a, NC, 'Branch')
    kids = a.collect(a.app(BR + '::nodes', proj(c, NC, b, 0)))
    out += TM.guard_pieces(over(kids, lambda y: items(k.node(y))), AND(NOT(isn), is_variant(c, NC, b)))
    return out


def solution(L):
    if L.k == 'lfpv' and L.a[0].k == 'lfp' and len(L.a[0].a[0]) == 1:
        return L.a[0].a[0][0], L.a[0].a[1][0], L.a[0].a[2][0]
    raise Missing('shown nodes are not a least solution: %s' % show(L)[:400])


def nodes(a):
    d = Dot(a)
    f = d.fn('nodes')
    S, out, L = shown(a, d)
    a.no_panic('listing the nodes never panics', S)
    mu, init, step = solution(L)
    k = Kinds(a, d, init)
    a.same('the rendered node is shown', d.f, k.first, k.node(d.root))
    every = 0
    for x, g, v in out:
        isn = is_variant(x, k.adt, k.n)
        a.iff('a found node is shown as itself', f, is_variant(v, k.adt, k.n), isn, cond=g)
        for i, h in ((k.n, isn), (k.al, NOT(isn))):
            h = AND(g, h)
            if h:
                a.same('a found node is shown as itself', f, given(proj(v, k.adt, i, 0), h), given(proj(x, k.adt, i, 0), h), cond=h)
    x = out[0][0]
    total = 0
    for y, g, v in out:
        g = rsub_bdd(g, {y: x}) if y is not x else g
        a.iff('no node is shown twice', f, AND(total, g), 0)
        total = OR(total, g)
    a.iff('every found node is shown', f, total, 1)
    q = SYM('anynode')
    y = mk('elem', mu, 0)
    want = forp(y, mu, 0, next_of(a, d, k, y))
    a.iff('what is found is what the alternatives of a node and the children of a branch reach', d.f, has(as_set(coll('set', None, tuple(as_pieces(step)))), q), has(coll('set', None, (want,)), q))


def edges(a):
    d = Dot(a)
    f = d.fn('edges')
    S, out, L = shown(a, d)
    mu, init, step = solution(L)
    k = Kinds(a, d, init)
    P = printer(d)
    S = a.S(f, None, [P])
    ends = lambda e: items(TUP(a.app(d.fn('source'), P, e), a.app(d.fn('target'), P, e)))
    got = coll('set', None, tuple(eta_pieces(over(listing(a, S.val), ends))))
    x = mk('elem', L, 0)
    want = forp(x, L, 0, over(coll('vec', None, tuple(next_of(a, d, k, x))), lambda y: items(TUP(x, y))))
    q = SYM('anyedge')
    a.iff('there is an edge exactly from each node to its alternatives and from each branch to its children', f, has(got, q), has(coll('set', None, (want,)), q))
    bad = invalid(a, d, k, x)
    for p in S.panics:
        a.never('listing the edges never panics on what is in the tree', f, AND(p[0], NOT(bad)), str(p[1:3]))


def the_text(v, fns):
    """parts of the text a dot id or label is made from"""
    v = strip(v)
    while v.k == 'fld' and v.a[1] in (OPT, RES):
        v = strip(v.a[0])
    if v.k == 'call' and v.a[0] in fns:
        v = strip(v.a[1][-1])
        return v
    raise Missing('text of %s' % show(v)[:300])


def pieces_of(v):
    v = strip(v)
    if v.k == 'str':
        return [v]
    if v.k == 'call' and v.a[0] == 'format':
        v = strip(v.a[1][0])
    ps = as_pieces(v)
    if not all(p.k == 'item' and p.a[0] == 1 for p in ps):
        raise Missing('text %s' % show(v)[:300])
    return [strip(p.a[1]) for p in ps]


def alternatives(v):
    return [(w, h) for w, h in branches(v) if h]


def ids(a):
    d = Dot(a)
    P = printer(d)
    S_, out, L = shown(a, d)
    k = Kinds(a, d, solution(L)[1])
    f = d.fn('node_id')
    i = SYM('index')
    UNSIGNED.add(i)
    t = pieces_of(the_text(a.S(d.fn('graph_id'), None, [P]).val, ('dot::Id::new',)))
    a.ob('the graph has a valid id', len(t) == 1 and t[0].k == 'str' and t[0].a[0].isidentifier() and t[0].a[0].isascii(), d.fn('graph_id'), '; '.join(show(x) for x in t))
    pre = []
    for v in (k.n, k.al):
        S = a.S(f, None, [P, AGG(k.adt, v, (i,))])
        alts = alternatives(S.val)
        if not a.ob('an id is one text', len(alts) == 1, f, show(S.val)[:400]):
            return
        t = pieces_of(the_text(alts[0][0], ('dot::Id::new',)))
        ok = len(t) == 2 and t[0].k == 'str' and t[1].k == 'call' and t[1].a[0] in ('Display', 'Debug') and strip(t[1].a[1][0]) is i
        if not a.ob('an id is a prefix and the index', ok, f, '; '.join(show(x) for x in t)):
            return
        p = t[0].a[0]
        pre.append(p)
        a.ob('ids are valid', p.isidentifier() and p.isascii(), f, p)
        a.ob('a prefix does not run into the index', not p[-1].isdigit(), f, p)
    a.ob('nodes and alternatives have different ids', pre[0] != pre[1], f, str(pre))


def labels(a):
    d = Dot(a)
    P = printer(d)
    S_, out, L = shown(a, d)
    k = Kinds(a, d, solution(L)[1])
    f = d.fn('node_label')
    j = SYM('index')
    UNSIGNED.add(j)
    S = a.S(f, None, [P, AGG(k.adt, k.al, (j,))])
    c = a.S(AL + '::content', None, [d.handle(AL, j)])
    bi, li = variant(a, NC, 'Branch'), variant(a, NC, 'Leaf')
    isb = is_variant(c.val, NC, bi)
    b, l = proj(c.val, NC, bi, 0), proj(c.val, NC, li, 0)
    for what, g, want in (('a branch is labelled with its action', isb, [a.app(BR + '::action', b)]),
                          ('a leaf is labelled with its kind and value', NOT(isb), [a.app(LF + '::kind', l), a.app(LF + '::value', l)])):
        g = AND(g, c.surv)
        got = [(w, AND(h, g)) for w, h in alternatives(S.val) if AND(h, g)]
        if not a.ob('a label is one text', len(got) == 1, f, show(S.val)[:400]):
            continue
        t = pieces_of(the_text(given(got[0][0], g), ('dot::LabelText::label',)))
        vals = [strip(x.a[1][0]) if x.k == 'call' and x.a[0] in ('Debug', 'Display') else x for x in t if x.k != 'str']
        ws = [strip(given(w, g)) for w in want]
        a.ob(what, len(vals) == len(ws) and all(x is y for x, y in zip(vals, ws)), f, 'shown %s\n  required %s' % ([show(x) for x in vals], [show(x) for x in ws]))
        if len(want) == 2:
            mid = [x.a[0] for n, x in enumerate(t) if x.k == 'str' and 0 < n < len(t) - 1]
            a.ob('kind and value are kept apart', ''.join(mid), f)
    for p in S.panics:
        a.never('labelling never panics on what is in the tree', f, AND(p[0], c.surv), str(p[1:3]))


RULES = [('rendered text', text), ('shown nodes', nodes), ('edges', edges), ('ids', ids), ('labels', labels)]
