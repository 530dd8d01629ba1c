"""Earley items and item sets; contracts of their operations for the rules about their clients."""
from rules import *
from props.gram import *

EA = 'parsers::earley::'
ES, EK, ESS = EA + 'state::EarleyState', EA + 'state::EarleyStateKey', EA + 'state::EarleyStateSet'
PS = 'state::ProdState'
TR = 'parsers::tree::'
TH, ND = TR + 'TreeHandle', TR + 'Node'
WCH = 'utils::WasChanged'
SG = 'start_grammar::'


def content(M, c, r):
    v = strip(std.content(M, c, r))
    KIND[v] = 'set'
    return v


def changed(M, g):
    vs = [v['name'] for v in M.p.adts[WCH]['variants']]
    return phi([(AGG(WCH, vs.index('Changed'), ()), g), (AGG(WCH, vs.index('Unchanged'), ()), NOT(g))])


def vals(M, c, x):
    return strip(std.deepval(M, c, x)) if hasattr(std, 'deepval') else strip(M.val(c, x))


# ------------------------------------------------------------- trees (C14-C16): nodes by how they were made
def leaf(M, c, a, i):
    return call('leaf', tuple(vals(M, c, x) for x in a))


def branch(M, c, a, i):
    ns = strip(std.collect_value(M, c, std.as_iter(M, c, a[2], i.argtys[2] if i.argtys else None), 'vec'))
    return call('branch', (vals(M, c, a[0]), vals(M, c, a[1]), ns))


def add_all(M, c, a, i):
    """merging nodes, as an entry in the record of calls"""
    x, y = vals(M, c, a[0]), vals(M, c, a[1])
    m = dict(c.mem)
    m['TR',] = coll('vec', M_get(m), items(TUP(STR('add_all'), x, y)))
    c.mem = m
    return call('merged', (x, y))


def M_get(m):
    return m.get(('TR',), EMPTYC('vec'))


MERGE = {ND + '::add_all': add_all}
TREES = {TH + '::make_leaf_node': leaf, TH + '::make_branch_node': branch}


# ------------------------------------------------------------- item sets as sets of items
def s_insert(M, c, a, i):
    m, st = content(M, c, a[0]), vals(M, c, a[1])
    M.store(c, std.deepref(M, c, a[0]), coll('set', m, items(st)))
    return changed(M, NOT(has(m, st)))


def s_states(M, c, a, i):
    return mk('it', 'src', content(M, c, a[0]))


def s_empty(M, c, a, i):
    return BOOL(NOT(nonempty(content(M, c, a[0]))))


def s_new(M, c, a, i):
    return EMPTYC('set')


def predict(M, c, a, i):
    v = call('predict', tuple(vals(M, c, x) for x in a))
    KIND[v] = 'vec'
    return v


def complete(M, c, a, i):
    v = call('complete', tuple(vals(M, c, x) for x in a[:3]) + (content(M, c, a[3]),))
    KIND[v] = 'vec'
    return v


SETS = {ESS + '::insert': s_insert, ESS + '::states': s_states, ESS + '::is_empty': s_empty, ESS + '::new': s_new,
        '<%s as std::default::Default>::default' % ESS: s_new}
OPS = {ES + '::predict': predict, ES + '::complete': complete}


# ------------------------------------------------------------- for the parser: item sets as what made them
def p_start(M, c, a, i):
    return setv(call('start', (vals(M, c, a[0]),)))


def setv(v):
    KIND[v] = 'set'
    return v


def p_shift(M, c, a, i):
    return setv(call('shift', (content(M, c, a[0]), vals(M, c, a[1]), vals(M, c, a[2]))))


def p_close(M, c, a, i):
    m = content(M, c, a[3])
    M.panic(c, NOT(nonempty(m)), 'closing an empty set')
    M.store(c, std.deepref(M, c, a[3]), setv(call('closed', tuple(vals(M, c, x) for x in a[:3]) + (m,))))
    return UNIT


def p_final(M, c, a, i):
    return strip(call('final', (content(M, c, a[0]),)))


PARSE = {ESS + '::new_start': p_start, ESS + '::shift': p_shift, EA + 'close_state': p_close, ESS + '::get_final': p_final, ESS + '::is_empty': s_empty}


# ------------------------------------------------------------- observers
class Items:
    def __init__(self, a):
        self.a = a

        def one(adt, pred, what):
            fs = [j for j, f in enumerate(a.p.adts[adt]['variants'][0]['fields']) if pred(a.p.ty(f['ty'], {}))]
            if len(fs) != 1:
                raise Missing('%s of %s' % (what, adt))
            return fs[0]
        adt = lambda n: lambda t: t[0] == 'adt' and t[1] == n
        self.k = one(ES, adt(EK), 'the key')
        self.v = one(ES, lambda t: t[0] == 'adt' and t[1].endswith('Vector'), 'the nodes')
        self.ki = one(EK, adt(PS), 'the cursor')
        self.ko = one(EK, lambda t: t == ('other', 'usize'), 'the origin')
        self.m = one(ESS, lambda t: t[0] == 'adt' and t[1].endswith('BTreeMap'), 'the items')
        self.vec = a.p.ty(a.p.adts[ES]['variants'][0]['fields'][self.v]['ty'], {})

    def key(self, s):
        return strip(proj(s, ES, 0, self.k))

    def cursor(self, s):
        return strip(proj(self.key(s), EK, 0, self.ki))

    def origin(self, s):
        o = strip(proj(self.key(s), EK, 0, self.ko))
        if o.k not in ('int', 'lin', 'phi'):
            UNSIGNED.add(o)
        return o

    def value(self, s):
        v = strip(proj(s, ES, 0, self.v))
        KIND.setdefault(v, 'vec')
        return v

    def item(self, key, value):
        n = len(self.a.p.adts[ES]['variants'][0]['fields'])
        f = [None] * n
        f[self.k], f[self.v] = key, value
        if None in f:
            raise Missing('items are a key and nodes')
        return AGG(ES, 0, tuple(f))

    def map(self, s):
        m = strip(proj(s, ESS, 0, self.m))
        KIND.setdefault(m, 'map')
        return m

    # cursors (C02)
    def step(self, c):
        """(condition, element after the dot, advanced cursor)"""
        v = self.a.app(PS + '::next_elem_state', c)
        p = unsome(restrict(v, some_guard(v)))
        e = strip(self.a.app(PE + '::elem', proj(p, '()', 0, 0)))
        return some_guard(v), e, strip(proj(p, '()', 0, 1))

    def done(self, c):
        return truth(self.a.app(PS + '::is_complete', c))

    def head(self, c):
        return strip(self.a.app(PR + '::head', self.a.app(PS + '::prod', c)))

    def term(self, e):
        return is_variant(e, EL, evar(self.a, EL, 'Term')), strip(proj(e, EL, evar(self.a, EL, 'Term'), 0))

    def nonterm(self, e):
        return is_variant(e, EL, evar(self.a, EL, 'NonTerm')), strip(proj(e, EL, evar(self.a, EL, 'NonTerm'), 0))

    def stream(self, t):
        """(t is the end of stream, t is a token, its kind)"""
        ST = SG + 'StreamTerminal'
        vs = self.a.p.adts[ST]['variants']
        e = [i for i, v in enumerate(vs) if not v['fields']]
        k = [i for i, v in enumerate(vs) if len(v['fields']) == 1]
        if len(e) != 1 or len(k) != 1:
            raise Missing('terminals are tokens or the end of the stream')
        return is_variant(t, ST, e[0]), is_variant(t, ST, k[0]), strip(proj(t, ST, k[0], 0))

    def waits(self, t, nt):
        """(item t waits for nt, advanced cursor)"""
        g, e, ps = self.step(self.cursor(t))
        n, x = self.nonterm(e)
        return AND(g, n, TM.eq(x, nt)), ps

    def final(self, s):
        g, e, ps = self.step(self.cursor(s))
        t, x = self.term(e)
        return AND(g, t, self.stream(x)[0])

    # what is visible of an item
    def keyof(self, s):
        return TUP(self.cursor(s), self.origin(s))

    def full(self, s):
        return TUP(self.cursor(s), self.origin(s), self.value(s))

    # ------------------------------------------------- definitions of the operations
    def scan(self, s, tok):
        TK = 'parsers::Token'
        fs = fields(self.a.p, TK)
        g, e, ps = self.step(self.cursor(s))
        t, x = self.term(e)
        _, k, kind = self.stream(x)
        kd, vl = strip(proj(tok, TK, 0, fs.index('kind'))), strip(proj(tok, TK, 0, fs.index('value')))
        return AND(g, t, k, TM.eq(kind, kd)), ps, kd, vl

    def predicted(self, s, b, g, prev, out):
        """(pieces, the rule exists) ; out(cursor, origin)"""
        c, e, _ = self.step(self.cursor(s))
        n, nt = self.nonterm(e)
        M = b.map(g)
        r = b.rule(g, load(M, nt))
        ps = cmap(b.prods(r), lambda p: out(strip(self.a.app(PS + '::from_start', p)), length(prev)))
        return TM.guard_pieces(as_pieces(ps), AND(c, n)), OR(NOT(AND(c, n)), has(M, nt))

    def completed(self, s, prev, curr, out):
        """pieces; out(waiting item, advanced cursor)"""
        o, n = self.origin(s), length(prev)
        here = ieq(o, n)
        d = self.done(self.cursor(s))
        ps = []
        for src, g in ((curr, here), (index(prev, o), NOT(here))):
            KIND[src] = 'set'
            t = first_free2(src, s)
            w, c = self.waits(t, self.head(self.cursor(s)))
            q = forp(t, src, 0, [mk('item', AND(d, g, w), out(t, c))])
            if q is not None:
                ps.append(q)
        return ps


def first_free2(src, *ts):
    n = 0
    while any(mk('elem', src, n) in t.fv for t in (src,) + ts):
        n += 1
    return mk('elem', src, n)


def setof(ps):
    return coll('set', None, tuple(ps))
