"""Hash-consed value terms and canonical guards (BDDs) for the value-flow analysis."""
import sys
sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- BDDs
class BDD:
    def __init__(self):
        self.nodes = [None, None]          # 0 = false, 1 = true
        self.uniq = {}
        self.atom_of = []                  # var -> term
        self.var_of = {}                   # term -> var
        self.memo = {}
        self.supp = {0: frozenset(), 1: frozenset()}

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = r
        return r

    def var(self, t):
        v = self.var_of.get(t)
        if v is None:
            v = len(self.atom_of)
            self.atom_of.append(t)
            self.var_of[t] = v
        return self.node(v, 0, 1)

    def cof(self, f, v):
        if f < 2 or self.nodes[f][0] != v:
            return f, f
        return self.nodes[f][1], self.nodes[f][2]

    def top(self, *fs):
        return min(self.nodes[f][0] for f in fs if f > 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is None:
            v = self.top(f, g, h)
            f0, f1 = self.cof(f, v)
            g0, g1 = self.cof(g, v)
            h0, h1 = self.cof(h, v)
            r = self.node(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
            self.memo[k] = r
        return r

    def AND(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
        return r

    def OR(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
        return r

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def constrain(self, f, c):
        """Generalised cofactor: depends only on f AND c, agrees with f on c."""
        if c == 1 or f < 2:
            return f
        if c == 0:
            return 0
        if f == c:
            return 1
        k = ('c', f, c)
        r = self.memo.get(k)
        if r is None:
            v = self.top(f, c)
            f0, f1 = self.cof(f, v)
            c0, c1 = self.cof(c, v)
            if c0 == 0:
                r = self.constrain(f1, c1)
            elif c1 == 0:
                r = self.constrain(f0, c0)
            else:
                r = self.node(v, self.constrain(f0, c0), self.constrain(f1, c1))
            self.memo[k] = r
        return r

    def assign(self, f, v, val):
        """f with variable v fixed."""
        if f < 2:
            return f
        n = self.nodes[f]
        if n[0] > v:
            return f
        k = ('a', f, v, val)
        r = self.memo.get(k)
        if r is None:
            if n[0] == v:
                r = n[2] if val else n[1]
            else:
                r = self.node(n[0], self.assign(n[1], v, val), self.assign(n[2], v, val))
            self.memo[k] = r
        return r

    def support(self, f):
        r = self.supp.get(f)
        if r is None:
            v, lo, hi = self.nodes[f]
            r = self.support(lo) | self.support(hi) | {v}
            self.supp[f] = r
        return r

    def atoms(self, f):
        return [self.atom_of[v] for v in sorted(self.support(f))]

    def compose(self, f, fn, memo=None):
        """Replace every atom by the guard fn(atom)."""
        if f < 2:
            return f
        if memo is None:
            memo = {}
        r = memo.get(f)
        if r is None:
            v, lo, hi = self.nodes[f]
            r = self.ite(fn(self.atom_of[v]), self.compose(hi, fn, memo), self.compose(lo, fn, memo))
            memo[f] = r
        return r

    def evaluate(self, f, val):
        while f > 1:
            v, lo, hi = self.nodes[f]
            f = hi if val(self.atom_of[v]) else lo
        return f == 1


B = BDD()
AND, OR, NOT, ITE = B.AND, B.OR, B.NOT, B.ite

# ---------------------------------------------------------------- terms
EMPTY = frozenset()


class T:
    __slots__ = ('k', 'a', 'id', 'fv')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_table = {}
FVK = ('elem', 'mu', 'sym')


def _fv(x):
    if isinstance(x, T):
        return x.fv
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            if isinstance(y, (T, tuple)):
                r = r | _fv(y)
        return r
    return EMPTY


_bfv = {0: EMPTY, 1: EMPTY}


def bdd_fv(f):
    r = _bfv.get(f)
    if r is None:
        r = EMPTY
        for a in B.atoms(f):
            r = r | a.fv
        _bfv[f] = r
    return r


class G(tuple):
    """A guard embedded in a term: G((bdd,))."""
    __slots__ = ()

    @property
    def b(self):
        return self[1]


def g_(b):
    return G(('#', b))


def mk(k, *a):
    key = (k,) + a
    t = _table.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.id = k, a, len(_table)
        if k == 'for':            # var, src, stop, pieces: var is bound
            var, src, stop, pieces = a
            t.fv = (src.fv | ((bdd_fv(stop) | _fv(pieces)) - {var}))
        elif k == 'exists':       # var, src, stop, cond
            var, src, stop, cond = a
            t.fv = src.fv | ((bdd_fv(stop) | bdd_fv(cond)) - {var})
        elif k == 'first':
            var, src, stop = a
            t.fv = src.fv | (bdd_fv(stop) - {var})
        elif k == 'last':
            var, src, val, init = a
            t.fv = src.fv | (_fv(val) - {var}) | _fv(init)
        elif k == 'item':
            t.fv = bdd_fv(a[0]) | a[1].fv
        elif k == 'bool':
            t.fv = bdd_fv(a[0])
        elif k == 'phi':
            t.fv = EMPTY
            for v, g in a[0]:
                t.fv = t.fv | v.fv | bdd_fv(g)
        elif k == 'lam':
            t.fv = _fv(a[1]) - frozenset(a[0])
        elif k in ('nest', 'rm'):
            t.fv = bdd_fv(a[0]) | _fv(a[1:])
        elif k == 'loop':         # bound, inits, nexts, cont
            t.fv = _fv(a[1]) | ((_fv(a[2]) | bdd_fv(a[3].b)) - frozenset(a[0]))
        elif k == 'fold':         # var, src, stop, bound, inits, nexts
            t.fv = a[1].fv | _fv(a[4]) | ((_fv(a[5]) | bdd_fv(a[2].b)) - frozenset(a[3]) - {a[0]})
        else:
            t.fv = _fv(a)
        if k in FVK:
            t.fv = t.fv | {t}
        _table[key] = t
    return t


# registries filled from types
UNSIGNED = set()
KIND = {}
NVAR = {}          # adt -> [variant names]
ADT = {}           # adt -> {'kind', 'variants': [[field names]]}


def INT(n):
    return mk('int', n)


def STR(s):
    return mk('str', s)


def SYM(n):
    return mk('sym', n)


def BOOL(f):
    return mk('bool', f)


TRUE, FALSE = BOOL(1), BOOL(0)
BOT = mk('bottom')
UNIT = mk('agg', '()', 0, ())
OPT = 'std::option::Option'
RES = 'std::result::Result'
ORD = 'std::cmp::Ordering'
CF = 'std::ops::ControlFlow'
NVAR[OPT] = ['None', 'Some']
NVAR[RES] = ['Ok', 'Err']
NVAR[ORD] = ['Less', 'Equal', 'Greater']
NVAR[CF] = ['Continue', 'Break']


def strip(v):
    while isinstance(v, T) and v.k == 'addr':
        v = v.a[0]
    return v


def AGG(adt, var, vals):
    vals = tuple(strip(v) for v in vals)
    # eta: a struct rebuilt from all the fields of one value is that value
    if vals and len(NVAR.get(adt, '1')) == 1 and adt != '()' and adt != 'closure':
        b = None
        ok = True
        for i, v in enumerate(vals):
            if v.k != 'fld' or v.a[1:] != (adt, var, i):
                ok = False
                break
            if b is None:
                b = v.a[0]
            elif b is not v.a[0]:
                ok = False
                break
        if ok and ADT.get(adt) and len(ADT[adt]['variants'][var]) == len(vals):
            return b
    return mk('agg', adt, var, vals)


def TUP(*vals):
    vals = tuple(strip(v) for v in vals)
    if len(vals) > 1:
        b = vals[0].a[0] if vals[0].k == 'fld' else None
        if b is not None and all(v.k == 'fld' and v.a[0] is b and v.a[1:] == ('()', 0, i) for i, v in enumerate(vals)):
            return b
    return mk('agg', '()', 0, vals)


def SOME(v):
    return AGG(OPT, 1, (v,))


NONE = mk('agg', OPT, 0, ())


def OK(v):
    return AGG(RES, 0, (v,))


def ERR(v):
    return AGG(RES, 1, (v,))


LESS, EQUAL, GREATER = (mk('agg', ORD, i, ()) for i in range(3))
ORDV = [LESS, EQUAL, GREATER]


def is_phi(v):
    return v.k == 'phi'


def branches(v):
    """[(plain value, guard)]"""
    if v.k == 'phi':
        return list(v.a[0])
    if v.k == 'addr' and v.a[0].k == 'phi':
        return list(v.a[0].a[0])
    return [(v, 1)]


def phi(brs):
    flat = []
    for v, g in brs:
        if g == 0 or v is BOT or v is None:
            continue
        if v.k == 'phi':
            for w, h in v.a[0]:
                gh = AND(g, h)
                if gh:
                    flat.append((w, gh))
        else:
            flat.append((v, g))
    if not flat:
        return BOT
    if all(v is flat[0][0] for v, _ in flat):
        return flat[0][0]
    if any(v.k == 'addr' for v, _ in flat):
        flat = [(strip(v), g) for v, g in flat]
        return phi(flat)
    tot = OR(*[g for _, g in flat])
    if tot != 1:
        flat = [(v, B.constrain(g, tot)) for v, g in flat]
    if any(v.k == 'bool' for v, _ in flat):
        f = 0
        for v, g in flat:
            f = OR(f, AND(g, truth(v)))
        return BOOL(f)
    acc = {}
    for v, g in flat:
        acc[v] = OR(acc.get(v, 0), g)
    # merge alternatives with the same constructor field-wise
    groups = {}
    rest = []
    for v, g in acc.items():
        if v.k == 'agg' and (v.a[2] or True):
            groups.setdefault((v.a[0], v.a[1], len(v.a[2])), []).append((v, g))
        else:
            rest.append((v, g))
    if len(groups) == 1 and rest:
        # a struct that is one value or another is made of fields that are one or another
        (adt, var, n), vs = next(iter(groups.items()))
        if n and len(NVAR.get(adt, '12')) == 1 and adt in ADT and len(ADT[adt]['variants'][0]) == n and all(v.k in ('fld', 'sym', 'elem', 'mu', 'loopv', 'foldv', 'init', 'cell', 'idx') for v, _ in rest):
            vs.extend((mk('agg', adt, var, tuple(proj(v, adt, var, i) for i in range(n))), g) for v, g in rest)
            rest = []
    out = []
    for (adt, var, n), vs in groups.items():
        if len(vs) == 1:
            out.append(vs[0])
            continue
        gt = OR(*[g for _, g in vs])
        cs = [(v, B.constrain(g, gt)) for v, g in vs]
        fields = tuple(phi([(v.a[2][i], g) for v, g in cs]) for i in range(n))
        w = AGG(adt, var, fields) if adt not in ('closure',) else mk('agg', adt, var, fields)
        out.append((w, gt))
    # a place of a sequence that is changed or not is changed to what it may be
    if len(rest) > 1:
        for v, g in [(v, g) for v, g in rest if v.k == 'setix']:
            if (v, g) not in rest:
                continue
            for w, h in rest:
                if w is v.a[0] or w is not v and w.k == 'setix' and w.a[:2] == v.a[:2]:
                    gt = OR(g, h)
                    here = w.a[2] if w.k == 'setix' else index(w, v.a[1])
                    if here.k in ('load', 'idx') and v.a[2].k == 'agg' and len(NVAR.get(v.a[2].a[0], '12')) == 1:
                        adt, var, vs = v.a[2].a
                        here = mk('agg', adt, var, tuple(proj(here, adt, var, i) for i in range(len(vs))))
                    both = phi([(here, B.constrain(h, gt)), (v.a[2], B.constrain(g, gt))])
                    rest = [r for r in rest if r[0] is not v and r[0] is not w] + [(mk('setix', v.a[0], v.a[1], both), gt)]
                    break
    # merge collections that extend the same base
    colls = [(v, g) for v, g in rest if v.k == 'coll']
    if colls and len(colls) + sum(1 for v, _ in rest if v.k != 'coll') > 1:
        bykey = {}
        others = []
        for v, g in rest:
            if v.k == 'coll':
                bykey.setdefault((v.a[0], v.a[1]), []).append((v, g))
            else:
                others.append((v, g))
        for v, g in others[:]:
            for (kd, base) in list(bykey):
                if base is v:
                    bykey[(kd, base)].append((mk('coll', kd, base, ()), g))
                    others.remove((v, g))
                    break
        rest = others
        for (kd, base), vs in bykey.items():
            if len(vs) == 1:
                rest.append(vs[0])
                continue
            gt = OR(*[g for _, g in vs])
            cs = [(v, B.constrain(g, gt)) for v, g in vs]
            common = []
            ps = [list(v.a[2]) for v, _ in cs]
            while all(ps) and all(p[0] is ps[0][0] for p in ps):
                common.append(ps[0][0])
                for p in ps:
                    p.pop(0)
            tail = []
            while all(ps) and all(p[-1] is ps[0][-1] for p in ps):
                tail.insert(0, ps[0][-1])
                for p in ps:
                    p.pop()
            mid = []
            for p, (_, g) in zip(ps, cs):
                mid.extend(guard_pieces(p, g))
            rest.append((coll(kd, base, tuple(common + mid + tail)), gt))
    out.extend(rest)
    if len(out) == 1:
        return out[0][0]
    # eta for enums: match x { A(..) => A(..), B(..) => B(..) } is x
    e = eta_enum(out)
    if e is not None:
        return e
    out.sort(key=lambda p: p[0].id)
    return mk('phi', tuple(out))


def eta_enum(out):
    a0 = out[0][0]
    if a0.k != 'agg' and not (a0.k in ('fld', 'sym', 'elem')):
        return None
    base = None
    for v, g in out:
        if v.k == 'agg' and v.a[2]:
            f = v.a[2][0]
            if f.k == 'fld' and f.a[1:] == (v.a[0], v.a[1], 0):
                base = f.a[0]
                break
    if base is None:
        return None
    for v, g in out:
        if v is base:
            continue
        if v.k != 'agg':
            return None
        adt, var, vals = v.a
        if adt not in NVAR or len(NVAR[adt]) < 2:
            return None
        if is_variant(base, adt, var) != g:
            return None
        for i, f in enumerate(vals):
            if not (f.k == 'fld' and f.a[0] is base and f.a[1:] == (adt, var, i)):
                return None
    return base


def guard_pieces(ps, g):
    """Put a guard on every emitted item."""
    if g == 1:
        return list(ps)
    out = []
    for p in ps:
        if p.k == 'item':
            h = AND(g, p.a[0])
            if h:
                out.append(mk('item', h, p.a[1]))
        elif p.k == 'for':
            var, src, stop, sub = p.a
            sub = tuple(guard_pieces(sub, g))
            if sub:
                out.append(mk('for', var, src, stop, sub))
        else:
            out.append(mk(p.k, AND(g, p.a[0]), *p.a[1:]))
    return out


def kind_of(v):
    v = strip(v)
    if is_txt(v):
        return 'vec'
    if v.k == 'coll':
        return v.a[0]
    if v.k == 'phi':
        for w, _ in v.a[0]:
            k = kind_of(w)
            if k:
                return k
    if v.k == 'skip':
        return 'vec'
    return KIND.get(v)


def mark_kind(v, k):
    v = strip(v)
    if v.k == 'phi':
        for w, _ in v.a[0]:
            mark_kind(w, k)
    elif v.k != 'coll':
        KIND.setdefault(v, k)


def items(*vs):
    return tuple(mk('item', 1, strip(v)) for v in vs)


def norm_pieces(kind, pieces):
    out = []
    if kind in ('set',):
        acc = {}
        fors = []
        for p in pieces:
            if p.k == 'item':
                for v, g in branches(strip(p.a[1])):
                    gg = AND(p.a[0], g)
                    if gg:
                        acc[v] = OR(acc.get(v, 0), gg)
            elif p.k == 'for' and not removes(p):
                if p.a[3] and through_set(p):
                    q = list(norm_pieces(kind, through(as_pieces(p.a[1]), p.a[0], p.a[3])))
                    fors += [r for r in q if r.k == 'for']
                    for r in q:
                        if r.k == 'item':
                            acc[r.a[1]] = OR(acc.get(r.a[1], 0), r.a[0])
                elif p.a[3]:
                    fors.append(p)
            else:
                return tuple(pieces)
        out = [mk('item', g, v) for v, g in acc.items()] + list(dict.fromkeys(fors))
        out = list(whole_source(kind, out))
        out.sort(key=lambda p: p.id)
        return tuple(out)
    for p in pieces:
        if p.k == 'item':
            if p.a[0] == 0:
                continue
            if kind == 'vec' and out and out[-1].k == 'item' and AND(out[-1].a[0], p.a[0]) == 0:
                q = out.pop()
                g = OR(q.a[0], p.a[0])
                v = phi([(q.a[1], q.a[0]), (p.a[1], p.a[0])])
                out.append(mk('item', g, v))
                continue
            if is_phi(p.a[1]):
                v = restrict(p.a[1], p.a[0])
                if v is not p.a[1]:
                    p = mk('item', p.a[0], v)
            out.append(p)
        elif p.k == 'for':
            if p.a[3]:
                out.append(p)
        else:
            if p.a[0] != 0:
                out.append(p)
    if kind == 'map' and len(out) > 1:
        # what a later entry for the same key replaces, is gone
        res, later = [], {}
        for p in reversed(out):
            k = p.a[1] if p.k == 'rm' else proj(p.a[1], '()', 0, 0) if p.k == 'item' else None
            if k is not None:
                if AND(p.a[0], NOT(later.get(k, 0))) == 0:
                    continue
                if p.k == 'item' and not map_adds(p, k):
                    later[k] = OR(later.get(k, 0), p.a[0])
            res.append(p)
        out = res[::-1]
    return whole_source(kind, out)


def through_set(p):
    """a pass over a set that was just gathered, into a set"""
    if p.a[2] != 0 or p.a[1].k != 'coll' or p.a[1].a[0] != 'set' or any(removes(q) for q in p.a[1].a[2]) or not all(plain(q) for q in p.a[1].a[2] + p.a[3]):
        return False
    outer = bound_in(as_pieces(p.a[1]))
    return not outer & (bound_in(p.a[3]) | {x for q in p.a[3] for x in q.fv})


def bound_in(ps):
    out = set()
    for p in ps:
        if p.k == 'for':
            out.add(p.a[0])
            out |= bound_in(p.a[3])
    return out


def through(ps, var, sub_):
    """what each gathered element leads to, where it is gathered"""
    out = []
    for p in ps:
        if p.k == 'item':
            for v, g in branches(strip(p.a[1])):
                out += guard_pieces([subst(q, {var: v}) for q in sub_], AND(p.a[0], g))
        else:
            q = forp(p.a[0], p.a[1], p.a[2], through(p.a[3], var, sub_))
            if q is not None:
                out.append(q)
    return tuple(out)


def without_removed(pieces):
    """what is removed later is not added in the first place"""
    n = next((i for i, p in enumerate(pieces) if removes(p)), None)
    if n == 0:
        return without_removed(pieces[1:]) if removes_only(pieces[0]) else pieces
    if n is None or not removes_only(pieces[n]):
        return pieces
    gone = lambda k: NOT(has_piece(1, pieces[n], strip(k), 'set'))

    def keep(p):
        if p.k == 'item':
            return mk('item', AND(p.a[0], NOT(gone(p.a[1]))), p.a[1])
        return forp(p.a[0], p.a[1], p.a[2], [keep(q) for q in p.a[3]])
    if any(not plain(p) for p in pieces[:n]):
        return pieces
    kept = [q for q in map(keep, pieces[:n]) if q is not None]
    return without_removed(norm_pieces('set', tuple(kept) + pieces[n + 1:]))


def plain(p):
    return p.k == 'item' or p.k == 'for' and all(plain(q) for q in p.a[3])


def whole_source(kind, ps):
    """the first element, then the rest -> all elements"""
    ps = list(ps)
    i = 0
    while i < len(ps):
        p = ps[i]
        if p.k == 'for' and p.a[1].k == 'skip' and p.a[2] == 0 and p.a[1].a[1].k == 'int' and len(p.a[3]) == 1 and p.a[3][0].k == 'item':
            var, src, _, sub_ = p.a
            n = src.a[1].a[0]
            first = subst(sub_[0], {var: index(src.a[0], INT(n - 1))})
            js = [i - 1] if kind != 'set' else range(len(ps))
            for j in js:
                if 0 <= j < len(ps) and j != i and ps[j] is first:
                    s2 = skipc(src.a[0], INT(n - 1))
                    w = mk('elem', s2, var.a[1])
                    copy_marks(var, w)
                    ps[i] = mk('for', w, s2, 0, (subst(sub_[0], {var: w}),))
                    del ps[j]
                    i = -1
                    break
        i += 1
    return tuple(ps)


def is_ident_for(p, kind):
    """for x in S: item(x) -> S"""
    if p.k != 'for' or p.a[2] != 0 or len(p.a[3]) != 1:
        return None
    it = p.a[3][0]
    if it.k != 'item' or it.a[0] != 1:
        return None
    var, src = p.a[0], p.a[1]
    v = it.a[1]
    if v is var:
        return src
    return None


def coll(kind, base, pieces):
    pieces = norm_pieces(kind, pieces)
    if base is not None and base.k == 'coll':
        if base.a[0] == kind or kind == 'vec':
            pieces = norm_pieces(kind, base.a[2] + pieces)
            base = base.a[1]
    if base is None and kind == 'set' and any(removes(p) for p in pieces):
        pieces = without_removed(pieces)
    if base is None and pieces:
        if kind == 'vec':
            s = is_ident_for(pieces[0], kind)
            if s is not None and s.k not in ('zip',):
                base, pieces = s, pieces[1:]
        else:
            for i, p in enumerate(pieces):
                s = is_ident_for(p, kind)
                if s is not None and kind_of(s) == kind:
                    base, pieces = s, pieces[:i] + pieces[i + 1:]
                    break
    if base is not None and kind == 'set' and pieces and pieces[0].k == 'rm' and pieces[0].a[0] == 1 and base.k in ('mu', 'sym', 'fld', 'skip') and pieces[0].a[1] is index(base, INT(0)):
        # taking out the first one leaves what follows it
        return coll('set', skipc(base, INT(1)), pieces[1:])
    if base is not None and kind == 'set' and kind_of(base) == 'set' and not any(removes(p) for p in pieces):
        # adding what is there already adds nothing: whether it is there need not be asked
        out = []
        for p in pieces:
            if p.k == 'item' and p.a[0] != 1:
                h = has(base, p.a[1])
                g = p.a[0]
                if h not in (0, 1) and any(a in bdd_fv(g) for a in bdd_fv(h)):
                    g = B.constrain(g, NOT(h))
                if g:
                    out.append(mk('item', g, p.a[1]))
            else:
                out.append(p)
        pieces = tuple(out)
    if base is not None and not pieces and (kind == 'vec' or kind_of(base) in (kind, None)):
        return base
    return mk('coll', kind, base, tuple(pieces))


def EMPTYC(kind):
    return mk('coll', kind, None, ())


def as_pieces(v, n=0):
    """The elements of a collection value as pieces (for splicing)."""
    v = fz(strip(v))
    if v.k == 'coll' and any(removes(p) for p in v.a[2]):
        KIND.setdefault(v, v.a[0])
        x = mk('elem', v, n)
        return [mk('for', x, v, 0, items(x))]
    if v.k == 'coll' and v.a[1] is None:
        return list(v.a[2])
    if v.k == 'coll':
        return as_pieces(v.a[1]) + list(v.a[2])
    if v.k == 'phi':
        out = []
        for w, g in v.a[0]:
            out.extend(guard_pieces(as_pieces(w), g))
        return out
    if v.k == 'agg' and v.a[0] == OPT:
        return list(items(v.a[2][0])) if v.a[1] == 1 else []
    x = mk('elem', v, n)
    return [mk('for', x, v, 0, (mk('item', 1, x),))]


# ---------------------------------------------------------------- projections
def proj(v, adt, var, i):
    v = strip(v)
    if v.k == 'agg':
        if v.a[1] != var and len(NVAR.get(v.a[0], '1')) > 1:
            return BOT
        if i < len(v.a[2]):
            return v.a[2][i]
        return BOT
    if v.k == 'phi':
        out = []
        for w, g in v.a[0]:
            gg = g
            if len(NVAR.get(adt, '1')) > 1:
                gg = AND(g, is_variant(w, adt, var))
            if gg:
                out.append((proj(w, adt, var, i), gg))
        return phi(out)
    if v is BOT:
        return BOT
    if v.k == 'elem' and v.a[0].k == 'zip' and adt == '()':
        return mk('fld', v, adt, var, i)
    if KEYED:
        if v.k == 'load' and (v.a[0], adt, i) in KEYED:
            return v.a[1]
        if v.k == 'fld' and v.a[1:4] == ('()', 0, 1) and v.a[0].k == 'elem' and (v.a[0].a[0], adt, i) in KEYED:
            return mk('fld', v.a[0], '()', 0, 0)
    return mk('fld', v, adt, var, i)


KEYED = set()       # (map, type of its values, field): the field holds the key the value is stored under


def upd(v, adt, var, i, n, new):
    """v with field i of n replaced."""
    v = strip(v)
    if v.k == 'phi':
        return phi([(upd(w, adt, var, i, n, new), g) for w, g in v.a[0]])
    fs = [proj(v, adt, var, j) for j in range(n)]
    fs[i] = new
    return AGG(adt, var, tuple(fs)) if adt != 'closure' else mk('agg', v.a[0], v.a[1], tuple(fs))


def is_variant(v, adt, i):
    v = strip(v)
    if v.k == 'agg':
        return 1 if v.a[1] == i else 0
    if v.k == 'phi':
        return OR(*[AND(g, is_variant(w, adt, i)) for w, g in v.a[0]])
    if v is BOT:
        return 0
    if v.k == 'discr':
        return is_variant(v.a[0], adt, i)
    n = len(NVAR.get(adt, 'x'))
    if n == 1:
        return 1
    if n == 2:
        a = B.var(mk('is', v, adt, 1))
        return a if i == 1 else NOT(a)
    f = 1
    for j in range(min(i, n - 1)):
        f = AND(f, NOT(B.var(mk('is', v, adt, j))))
    if i < n - 1:
        f = AND(f, B.var(mk('is', v, adt, i)))
    return f


def truth(v):
    """guard of a boolean value"""
    v = strip(v)
    if v.k == 'bool':
        return v.a[0]
    if v.k == 'phi':
        return OR(*[AND(g, truth(w)) for w, g in v.a[0]])
    if v.k == 'int':
        return 1 if v.a[0] else 0
    if v is BOT:
        return 0
    return B.var(mk('b', v))


# ---------------------------------------------------------------- integers
def lin_of(v):
    """-> (const, {term: coef})"""
    if v.k == 'int':
        return v.a[0], {}
    if v.k == 'lin':
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def mklin(c, m):
    m = {t: k for t, k in m.items() if k}
    if not m:
        return INT(c)
    if c == 0 and len(m) == 1:
        (t, k), = m.items()
        if k == 1:
            return t
    return mk('lin', c, tuple(sorted(m.items(), key=lambda p: p[0].id)))


def dist2(f, a, b):
    a, b = strip(a), strip(b)
    if a.k == 'phi':
        return phi([(dist2(f, w, restrict(b, g)), g) for w, g in a.a[0]])
    if b.k == 'phi':
        return phi([(dist2(f, restrict(a, g), w), g) for w, g in b.a[0]])
    if a is BOT or b is BOT:
        return BOT
    return f(a, b)


def dist1(f, a):
    a = strip(a)
    if a.k == 'phi':
        return phi([(dist1(f, w), g) for w, g in a.a[0]])
    if a is BOT:
        return BOT
    return f(a)


def add(a, b):
    def f(a, b):
        c, m = lin_of(a)
        d, n = lin_of(b)
        m = dict(m)
        for t, k in n.items():
            m[t] = m.get(t, 0) + k
        return mklin(c + d, m)
    return dist2(f, a, b)


def scale(a, k):
    def f(a):
        c, m = lin_of(a)
        return mklin(c * k, {t: x * k for t, x in m.items()})
    return dist1(f, a)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    def f(a, b):
        if a.k == 'int':
            return scale(b, a.a[0])
        if b.k == 'int':
            return scale(a, b.a[0])
        if b.id < a.id:
            a, b = b, a
        return mk('call', '*', (a, b))
    return dist2(f, a, b)


def nonneg(t):
    return t in UNSIGNED or t.k in ('len', 'ix')


def upper_ok(m, c):
    """d = m + c where m contains ix(e) - len(C): is d <= -1 provable?"""
    pos = [t for t, k in m.items() if k == 1 and t.k == 'ix']
    neg = [t for t, k in m.items() if k == -1 and t.k == 'len']
    if len(m) == 2 and len(pos) == 1 and len(neg) == 1:
        e = pos[0].a[0]
        src = e.a[0] if e.k == 'elem' else None
        while src is not None and src.k == 'skip':
            src = src.a[0]
        if src is neg[0].a[0]:
            return c <= 0
    return False


def is_txt(v):
    return v.k == 'agg' and v.a[0] == 'txt'


def TXT(kind, t, p, e, base):
    """the characters of text t between byte positions p and e, with offsets counted from base"""
    return AGG('txt', 0, (STR(kind), t, p, e, base))


def char_width(t, p):
    w = call('cwx', (strip(t), strip(p)))
    if w.k == 'phi':
        for x, _ in w.a[0]:
            UNSIGNED.add(x)
    UNSIGNED.add(w)
    return add(INT(1), w)


def txt_skip(c):
    k, t, p, e, b = c.a[2]
    return AGG('txt', 0, (k, t, add(p, char_width(t, p)), e, b))


def txt_item(c):
    k, t, p, e, b = c.a[2]
    ch = call('chr', (t, p))
    if k is STR('char_indices'):
        return TUP(sub(p, b), ch)
    return ch


def grown(m, c):
    """size of a set or map against its size before things were added to it: m + c <= 0"""
    for x, y in (tuple(m), tuple(m)[::-1]):
        if x.k != 'len' or y.k != 'len' or m[x] != -m[y] or m[x] not in (1, -1):
            continue
        X, Y = x.a[0], y.a[0]
        if X.k != 'coll' or X.a[0] not in ('set', 'map') or X.a[1] is None:
            continue
        kind, base, ps = X.a
        if base.k == 'phi' and any(w is Y for w, _ in base.a[0]):
            # one of the values it may have started from
            r = 0
            for w, g in base.a[0]:
                d = mklin(c, {length(coll(kind, w, ps)): m[x], y: m[y]}) if w is Y else add(scale(length(coll(kind, w, ps)), m[x]), add(scale(length(Y), m[y]), INT(c)))
                r = OR(r, AND(g, le0(d)))
            return r
        if Y is base:
            rest = ps
        elif Y.k == 'coll' and Y.a[0] == kind and Y.a[1] is base and ps[:len(Y.a[2])] == Y.a[2]:
            rest = ps[len(Y.a[2]):]
        else:
            continue
        new = adds_to(Y, kind, rest)
        if new is None:
            continue
        if m[x] == 1:
            if c == 0:
                return NOT(new)
            if c > 0:
                return 0
        else:
            if c <= 0:
                return 1
            if c == 1:
                return new
    return None


def adds_to(Y, kind, ps):
    """some piece is not in Y yet"""
    f = 0
    for p in ps:
        if p.k == 'item':
            f = OR(f, AND(p.a[0], NOT(has(Y, p.a[1] if kind == 'set' else proj(p.a[1], '()', 0, 0)))))
        elif p.k == 'for':
            c = adds_to(Y, kind, p.a[3])
            if c is None:
                return None
            f = OR(f, exists(p.a[0], p.a[1], p.a[2], c))
        else:
            return None
    return f


TOTAL = mk('total')     # default of maps in which an absent key means: no elements
FILLED = {}     # map of collections -> where in its values a collection is that is never empty


def is_filled(t):
    path = ()
    if t.k == 'fld' and t.a[1] != '()':
        path = t.a[1:]
        t = t.a[0]
    if t.k == 'load':
        s = t.a[0]
    elif t.k == 'fld' and t.a[0].k == 'elem' and t.a[1:3] == ('()', 0) and t.a[3] == 1:
        s = t.a[0].a[0]
    else:
        return False
    return s in FILLED and FILLED[s][:3] == path[:3]


def le0(d):
    """guard of d <= 0"""
    d = strip(d)
    if d.k == 'phi':
        return OR(*[AND(g, le0(w)) for w, g in d.a[0]])
    if d is BOT:
        return 0
    c, m = lin_of(d)
    if not m:
        return 1 if c <= 0 else 0
    for t, k in m.items():
        if k in (1, -1) and t.k == 'len' and t.a[0].k == 'skip':
            # what is left after skipping n is the length less n, or nothing
            r = mklin(c, {u: j for u, j in m.items() if u is not t})
            w = sub(length(t.a[0].a[0]), t.a[0].a[1])
            return AND(le0(add(r, w)), le0(r)) if k == 1 else OR(le0(sub(r, w)), le0(r))
    if len(m) == 1:
        (t, k), = m.items()
        if FILLED and t.k == 'len' and is_filled(t.a[0]):
            if k == 1 and c >= 0:        # len + c <= 0
                return 0
            if k == -1 and c <= 1:       # c <= len
                return 1
        if t.k == 'len' and t.a[0].k == 'coll' and (k, c) in ((1, 0), (-1, 1)) and not any(removes(p) for p in t.a[0].a[2]):
            r = nonempty(t.a[0])
            return r if k == -1 else NOT(r)
        if t.k == 'len' and is_txt(t.a[0]) and k in (1, -1):
            n = -c if k == 1 else c - 1          # len <= n
            if n < 0:
                r = 0
            elif n <= 4:
                v = t.a[0]
                for _ in range(n):
                    v = txt_skip(v)
                r = le(v.a[2][3], v.a[2][2])
            else:
                r = None
            if r is not None:
                return r if k == 1 else NOT(r)
        if t.k in ('foldv', 'foldp') and (k, c) in ((1, 0), (-1, 1)):
            z = counted_nothing(t)
            if z is not None:
                return z if k == 1 else NOT(z)
    # d = m + c <= 0
    if all(k > 0 and nonneg(t) for t, k in m.items()) and c > 0:
        return 0
    if all(k < 0 and nonneg(t) for t, k in m.items()) and c <= 0:
        return 1
    if len(m) > 1 and c == 0 and all(k > 0 and nonneg(t) for t, k in m.items()):
        return AND(*[le0(mklin(0, {t: 1})) for t in m])          # a sum of counts is nothing when every one is
    if len(m) > 1 and c == 1 and all(k < 0 and nonneg(t) for t, k in m.items()):
        return OR(*[NOT(le0(mklin(0, {t: 1}))) for t in m])
    if upper_ok(m, c - 1):       # ix(e) - len(C) <= -1
        return 1
    for t, k in m.items():
        sk = t.a[0].a[0 if t.a[0].k == 'elem' else 1] if t.k == 'ix' and t.a[0].k in ('elem', 'first') else None
        if sk is not None and k in (1, -1) and sk.k == 'skip':
            # the position of an element of what is left after n is less than the length less n
            w = sub(length(sk.a[0]), add(sk.a[1], INT(1)))
            r = mklin(c, {u: j for u, j in m.items() if u is not t})
            if t in lin_of(w)[1]:
                continue
            if k == 1 and le0(add(r, w)) == 1:
                return 1
            if k == -1 and le0(sub(r, w)) == 0:
                return 0
    for t, k in m.items():
        if k in (1, -1) and t.k == 'elem' and t.a[0].k == 'range':
            # a number of a range is within it
            lo, hi = t.a[0].a
            if t in lo.fv or t in hi.fv:
                continue
            r = mklin(c, {u: j for u, j in m.items() if u is not t})
            top = sub(hi, INT(1))
            if le0(add(r, top) if k == 1 else sub(r, lo)) == 1:
                return 1
            if le0(add(r, lo) if k == 1 else sub(r, top)) == 0:
                return 0
    if len(m) == 2:
        r = grown(m, c)
        if r is not None:
            return r
    nm = {t: -k for t, k in m.items()}
    if upper_ok(nm, -c + 1) and -c + 1 <= 0 and False:
        return 0
    if upper_ok(nm, 0) and c >= 1 - 1 + 1:   # len(C) - ix(e) >= 1  =>  m + c <= 0 false when c >= 0
        return 0
    if upper_ok(nm, 0) and c >= 0:
        return 0
    first = min(m, key=lambda t: t.id)
    if m[first] > 0:
        return B.var(mk('le', mklin(0, m), -c))          # m <= -c
    # m <= -c  <=>  -m >= c  <=>  not(-m <= c-1)
    return NOT(B.var(mk('le', mklin(0, nm), c - 1)))


def counted_nothing(t):
    """a counter that a loop only adds to is 0 when it was and nothing was ever added"""
    def step(t, mu):
        # condition under which t, a count that mu goes into, is more than mu
        if t is mu:
            return 0
        if t.k == 'phi':
            gs = [(step(w, mu), g) for w, g in t.a[0]]
            return None if any(s is None for s, _ in gs) else OR(*[AND(s, g) for s, g in gs])
        if t.k == 'lin':
            c, m = lin_of(t)
            return 1 if m == {mu: 1} and c > 0 else None
        if t.k in ('foldv', 'foldp'):
            return walk(t, lambda i: step(i, mu))
        return None

    def walk(t, first):
        x, S, stop, bound, inits, nexts = t.a[0].a
        j = t.a[1]
        a = first(strip(inits[j]))
        b = step(strip(nexts[j]), bound[j]) if a is not None else None
        if b is None:
            return None
        stop = stop.b if isinstance(stop, G) else stop
        b = AND(b, NOT(stop))
        if b > 1 and bdd_fv(b) & set(bound) or stop > 1 and bdd_fv(stop) & set(bound):
            return None
        return OR(a, exists(x, S, stop, b))
    r = walk(t, lambda i: NOT(le0(i)) if i.k == 'int' and i.a[0] >= 0 or nonneg(i) else None)
    return None if r is None else NOT(r)


def le(a, b):
    return truth(dist2(lambda a, b: BOOL(le0(sub(a, b))), a, b))


def lt(a, b):
    return le(add(a, INT(1)), b)


def ieq(a, b):
    return AND(le(a, b), le(b, a))


# ---------------------------------------------------------------- comparisons
STRUCT_EQ = {OPT, '()', RES, ORD}
NOSTRUCT = {'txt'}


def eq(a, b):
    a, b = strip(a), strip(b)
    if a is b:
        return 1
    if a is BOT or b is BOT:
        return 0
    if a.k == 'pt' and b.k == 'pt':
        return ptr_eq(a.a[0], b.a[0])
    if a.k == 'phi':
        return OR(*[AND(g, eq(w, b)) for w, g in a.a[0]])
    if b.k == 'phi':
        return OR(*[AND(g, eq(a, w)) for w, g in b.a[0]])
    if a.k == 'bool' or b.k == 'bool':
        x, y = truth(a), truth(b)
        return OR(AND(x, y), AND(NOT(x), NOT(y)))
    for x, y in ((a, b), (b, a)):
        if x.k == 'discr' and y.k == 'int' and x.a[1] in PLAIN:
            return is_variant(x.a[0], x.a[1], y.a[0]) if 0 <= y.a[0] < PLAIN[x.a[1]] else 0
    if a.k == 'discr' and b.k == 'discr' and a.a[1] == b.a[1] and a.a[1] in BARE:
        return OR(*[AND(is_variant(a.a[0], a.a[1], i), is_variant(b.a[0], b.a[1], i)) for i in range(PLAIN[a.a[1]])])
    if a.k in ('int', 'lin', 'len', 'ix') or b.k in ('int', 'lin', 'len', 'ix') or (a in UNSIGNED and b in UNSIGNED):
        return ieq(a, b)
    if a.k == 'str' and b.k == 'str':
        return 0
    if a.k == 'agg' and b.k == 'agg' and a.a[0] == b.a[0] and a.a[0] not in NOSTRUCT:
        if a.a[1] != b.a[1]:
            return 0
        return AND(*[eq(x, y) for x, y in zip(a.a[2], b.a[2])])
    for x, y in ((a, b), (b, a)):
        if x.k == 'agg' and y.k != 'agg' and x.a[0] not in NOSTRUCT and x.a[0] != 'closure':
            f = is_variant(y, x.a[0], x.a[1])
            for i, xf in enumerate(x.a[2]):
                f = AND(f, eq(xf, proj(y, x.a[0], x.a[1], i)))
            return f
    for x, y in ((a, b), (b, a)):
        if x.k == 'coll' and x.a[0] == 'vec' and x.a[1] is None and len(x.a[2]) > 1:
            t = split_atom(x)
            if t is not None:
                return ITE(B.var(t), eq(replace_term(x, t, 1), replace_term(y, t, 1)), eq(replace_term(x, t, 0), replace_term(y, t, 0)))
    if b.id < a.id:
        a, b = b, a
    return B.var(mk('eq', a, b))


def split_atom(v):
    """a condition outside any element under which items of v are there"""
    def go(ps, bound):
        for p in ps:
            if p.k == 'item':
                for t in B.atoms(p.a[0]) if p.a[0] > 1 else ():
                    if not (t.fv & bound):
                        return t
            elif p.k == 'for' and p.a[2] == 0:
                t = go(p.a[3], bound | {p.a[0]})
                if t is not None:
                    return t
        return None
    return go(v.a[2], frozenset())


BARE = set()    # .. none of which has content
PLAIN = {}      # enums whose variants are numbered from 0 -> number of variants


def glt(a, b):
    """a < b for values of an ordered type"""
    a, b = strip(a), strip(b)
    if a is b:
        return 0
    if a.k == 'phi':
        return OR(*[AND(g, glt(w, b)) for w, g in a.a[0]])
    if b.k == 'phi':
        return OR(*[AND(g, glt(a, w)) for w, g in b.a[0]])
    for x, y in ((a, b), (b, a)):
        if x.k == 'discr' and y.k == 'int' and x.a[1] in PLAIN:
            n = PLAIN[x.a[1]]
            return OR(*[is_variant(x.a[0], x.a[1], i) for i in range(n) if (i < y.a[0] if x is a else y.a[0] < i)])
    if is_int(a) or is_int(b):
        return lt(a, b)
    if a.k == 'discr' and b.k == 'discr' and a.a[1] == b.a[1] and 0 < PLAIN.get(a.a[1], 0) <= 4:
        n = PLAIN[a.a[1]]
        return OR(*[AND(is_variant(a.a[0], a.a[1], i), is_variant(b.a[0], b.a[1], j)) for i in range(n) for j in range(i + 1, n)])
    e = eq(a, b)
    if a.id < b.id:
        return AND(NOT(e), B.var(mk('lt', a, b)))
    return AND(NOT(e), NOT(B.var(mk('lt', b, a))))


def is_int(a):
    return a.k in ('int', 'lin', 'len', 'ix') or a in UNSIGNED


def compare(a, b):
    """Ordering value of a.cmp(&b)"""
    l, e = glt(a, b), eq(a, b)
    return phi([(LESS, AND(l, NOT(e))), (EQUAL, e), (GREATER, AND(NOT(l), NOT(e)))])


def ptr_eq(a, b):
    """identity of addresses"""
    if a is b:
        return 1
    if a.k == 'phi':
        return OR(*[AND(g, ptr_eq(w, b)) for w, g in a.a[0]])
    if b.k == 'phi':
        return OR(*[AND(g, ptr_eq(a, w)) for w, g in b.a[0]])
    if b.id < a.id:
        a, b = b, a
    return B.var(mk('ptreq', a, b))


# ---------------------------------------------------------------- collections
def length(v):
    v = fz(strip(v))
    if v.k == 'phi':
        return phi([(length(w), g) for w, g in v.a[0]])
    if v is BOT:
        return BOT
    if v.k == 'coll':
        kind, base, ps = v.a
        if base is None and not ps:
            return INT(0)
        if kind == 'vec':
            tot = length(base) if base is not None else INT(0)
            ok = True
            for p in ps:
                if p.k == 'item' and p.a[0] == 1:
                    tot = add(tot, INT(1))
                elif p.k == 'item':
                    tot = add(tot, phi([(INT(1), p.a[0]), (INT(0), NOT(p.a[0]))]))
                elif p.k == 'for' and p.a[2] == 0 and len(p.a[3]) == 1 and p.a[3][0].k == 'item' and p.a[3][0].a[0] == 1:
                    tot = add(tot, length(p.a[1]))
                else:
                    ok = False
                    break
            if ok:
                return tot
            # canonical: only the guards matter
            v = mk('coll', 'vec', base, tuple(count_piece(p) for p in ps))
            if base is None and len(ps) == 1 and ps[0].k == 'for' and ps[0].a[2] != 0 and len(ps[0].a[3]) == 1 and ps[0].a[3][0].k == 'item' and AND(NOT(ps[0].a[2]), NOT(ps[0].a[3][0].a[0])) == 0:
                # one per element before the first that stops
                var, src, stop, (it,) = ps[0].a
                if AND(stop, it.a[0]) == 0:
                    var, stop, _ = canon_var(var, src, stop, 1)
                    g = exists(var, src, 0, stop)
                    return phi([(mk('ix', mk('first', var, src, stop)), g), (length(src), NOT(g))])
        elif kind == 'map' and base is None and len(ps) == 1 and ps[0].k == 'item' and ps[0].a[0] == 1:
            return INT(1)
    if v.k == 'skip' and v.a[1].k == 'int' and False:
        return sub(length(v.a[0]), v.a[1])
    if v.k in ('rev', 'setix'):
        return length(v.a[0])
    if v.k == 'array':
        return INT(len(v.a[0]))
    return mk('len', v)


def count_piece(p):
    if p.k == 'item':
        return mk('item', p.a[0], UNIT)
    if p.k == 'for':
        return mk('for', p.a[0], p.a[1], p.a[2], norm_pieces('vec', tuple(count_piece(q) for q in p.a[3])))
    return p


def nonempty(v):
    v = fz(strip(v))
    if v.k == 'phi':
        return OR(*[AND(g, nonempty(w)) for w, g in v.a[0]])
    if v is BOT:
        return 0
    if v.k == 'coll':
        kind, base, ps = v.a
        if any(removes(p) for p in ps):
            if base is not None and all(removes_only(p) for p in ps):
                x = mk('elem', base, 0)
                return exists_over(x, base, 0, has(v, x if kind != 'map' else proj(x, '()', 0, 0)))
            return NOT(le0(mk('len', v)))
        f = nonempty(base) if base is not None else 0
        return OR(f, pieces_nonempty(ps))
    if v.k == 'agg' and v.a[0] == OPT:
        return 1 if v.a[1] == 1 else 0
    if v.k == 'skip':
        return NOT(le(length(v.a[0]), v.a[1]))
    if v.k == 'range':
        return lt(v.a[0], v.a[1])
    return NOT(le0(length(v)))


def removes(p):
    return p.k == 'rm' or p.k == 'for' and any(removes(q) for q in p.a[3])


def removes_only(p):
    return p.k == 'rm' or p.k == 'for' and all(removes_only(q) for q in p.a[3])


def pieces_nonempty(ps):
    f = 0
    for p in ps:
        if p.k == 'item':
            f = OR(f, p.a[0])
        elif p.k == 'for':
            var, src, stop, sub_ = p.a
            c = pieces_nonempty(sub_)
            if stop == 0 and src.k == 'coll' and src.a[0] == 'set' and src.a[1] is None and not any(removes(q) for q in src.a[2]):
                f = OR(f, exists_over(var, src, stop, c))
            else:
                f = OR(f, exists(var, src, stop, c))
        else:
            f = OR(f, B.var(mk('b', mk('pne', p))))
    return f


def exists(var, src, stop, c):
    """some element x of src satisfies c(x), no earlier element satisfying stop"""
    if c == 0:
        return 0
    stop = AND(stop, NOT(c))
    if c == 1:
        return nonempty(src)
    # hoist atoms that do not depend on the element
    for v in sorted(B.support(c) | B.support(stop)):
        a = B.atom_of[v]
        if var not in a.fv:
            return ITE(B.node(v, 0, 1),
                       exists(var, src, B.assign(stop, v, 1), B.assign(c, v, 1)),
                       exists(var, src, B.assign(stop, v, 0), B.assign(c, v, 0)))
    if stop == 0 and var.k == 'elem' and var.a[0] is src:
        kd = kind_of(src)
        if kd in ('set', 'map'):
            # there is an element equal to t  ->  t is in the set
            for v in sorted(B.support(c)):
                a = B.atom_of[v]
                if a.k == 'eq' and B.assign(c, v, 0) == 0:
                    l = var if kd == 'set' else mk('fld', var, '()', 0, 0)
                    for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                        if x is l and var not in y.fv:
                            w = y if kd == 'set' else TUP(y, load(src, y))
                            return AND(has(src, y), subst_bdd(B.assign(c, v, 1), {var: w}))
                if a.k == 'le' and B.assign(c, v, 0) == 0:
                    l = var if kd == 'set' else mk('fld', var, '()', 0, 0)
                    y = pinned(c, a, l)
                    if y is not None and var not in y.fv:
                        w = y if kd == 'set' else TUP(y, load(src, y))
                        return AND(has(src, y), subst_bdd(c, {var: w}))
    if stop == 0:
        # t(x) is known to equal a value that does not depend on x: nothing else needs to be said about t(x)
        for v in sorted(B.support(c)):
            a = B.atom_of[v]
            if a.k != 'eq' or B.assign(c, v, 0) != 0:
                continue
            rest = B.assign(c, v, 1)
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if var in x.fv and var not in y.fv and x is not var and rest > 1:
                    r2 = truth(replace_term(BOOL(rest), x, y))
                    if r2 != rest:
                        return exists(var, src, 0, AND(B.node(v, 0, 1), r2))
    var2, stop, c = canon_var(var, src, stop, c)
    return B.var(mk('exists', var2, src, stop, c))


def pinned(c, a, l):
    """c implies that l has this value (a: the upper bound m <= n of m = +-l + rest, c also gives m > n-1)"""
    w = B.var_of.get(mk('le', a.a[0], a.a[1] - 1))
    if w is None or B.assign(c, w, 1) != 0:
        return None
    k0, m = lin_of(a.a[0])
    k = m.get(l)
    if k not in (1, -1):
        return None
    # k*l + rest = n  ->  l = k*(n - rest)
    rest = {t: x for t, x in m.items() if t is not l}
    return scale(sub(INT(a.a[1] - k0), mklin(0, rest)), k)


def canon_var(var, src, stop, x):
    """rename a bound element variable to the smallest free index"""
    if var.k == 'elem':
        fv = (bdd_fv(stop) | (bdd_fv(x) if isinstance(x, int) else _fv(x)))
        n = 0
        while n < var.a[1]:
            w = mk('elem', src, n)
            if w not in fv:
                m = {var: w}
                copy_marks(var, w)
                return w, subst_bdd(stop, m), (subst_bdd(x, m) if isinstance(x, int) else tuple(subst(p, m) for p in x))
            n += 1
    return var, stop, x


def copy_marks(a, b):
    if a in UNSIGNED:
        UNSIGNED.add(b)
    if a in KIND:
        KIND.setdefault(b, KIND[a])


def forp(var, src, stop, pieces):
    pieces = tuple(p for p in pieces if not (p.k == 'item' and p.a[0] == 0))
    if not pieces:
        return None
    var, stop, pieces = canon_var(var, src, stop, pieces)
    return mk('for', var, src, stop, pieces)


FROZEN = {}     # loop variable of a growing collection -> variable standing for its final content


def fz(c):
    """what reads of a growing collection see (see Machine.frozen)"""
    if not FROZEN:
        return c
    t = c
    while t.k == 'coll' and t.a[1] is not None:
        t = t.a[1]
    if t.k == 'mu' or t.k in ('load', 'fld', 'idx'):
        if t in FROZEN:
            return FROZEN[t]
        if t.k != 'mu':
            r = t
            while r.k in ('load', 'fld', 'idx', 'coll'):
                r = r.a[1] if r.k == 'coll' else r.a[0]
                if r is None:
                    return c
            if r in FROZEN and t.fv & FROZEN.keys():
                return subst(t, {m: f for m, f in FROZEN.items() if m is not f}) if any(m is not FROZEN[m] for m in t.fv & FROZEN.keys()) else t
    return c


def freeze(m, f):
    FROZEN[m] = f
    _smemo.clear()
    _rmemo.clear()


def thaw(ms):
    for m in ms:
        FROZEN.pop(m, None)
    _smemo.clear()
    _rmemo.clear()


def map_adds(p, key):
    """a write to a map whose final content is being read: it adds to what is there under key"""
    if not FROZEN:
        return False
    for w, _ in branches(proj(p.a[1], '()', 0, 1)):
        for v in (w.a[2] if w.k == 'agg' else (w,)):
            b = v.a[1] if v.k == 'coll' else v
            while b is not None and b.k == 'fld':
                b = b.a[0]
            if b is not None and b.k == 'load' and b.a[1] is key and b.a[0] in FROZEN:
                return True
    return False


def has(c, key):
    """key (or element) is in collection c"""
    c, key = strip(c), strip(key)
    if FROZEN and c.k == 'coll' and c.a[1] is not None and c.a[2] and fz(c) is not c and not any(removes(p) for p in c.a[2]):
        # what was just put there is there already
        f = 0
        for p in c.a[2]:
            f = has_piece(f, p, key, c.a[0])
        if f == 1 or f and OR(f, has(fz(c), key)) == 1:
            return 1
    c = fz(c)
    if c.k == 'phi':
        return OR(*[AND(g, has(w, key)) for w, g in c.a[0]])
    if key.k == 'phi':
        return OR(*[AND(g, has(restrict(c, g), w)) for w, g in key.a[0]])
    if c is BOT or key is BOT:
        return 0
    if c.k == 'coll':
        kind, base, ps = c.a
        if kind == 'set' and key.k == 'elem' and key.a[0] is c:
            return 1
        f = has(base, key) if base is not None else 0
        for p in ps:
            f = has_piece(f, p, key, kind)
        return f
    kd = KIND.get(c)
    if key.k == 'elem' and key.a[0] is c and kd == 'set':
        return 1
    if key.k == 'elem' and key.a[0].k == 'coll' and key.a[0].a[1] is None and key.a[0].a[2] and kd in ('set', 'map'):
        # an element of a collection of (some of) its own elements
        if all(p.k == 'for' and p.a[1] is c and all(q.k == 'item' and has_own(q.a[1], p.a[0], kd) for q in p.a[3]) for p in key.a[0].a[2]):
            return 1
    if key.k == 'fld' and key.a[1:] == ('()', 0, 0) and key.a[0].k == 'elem' and key.a[0].a[0] is c:
        return 1
    t = spread_atom(key)
    if t is not None:
        return ITE(B.var(t), has(c, replace_term(key, t, 1)), has(c, replace_term(key, t, 0)))
    return B.var(mk('has', c, key))


def has_own(v, x, kd):
    return v is x if kd == 'set' else v.k == 'fld' and v.a[0] is x and v.a[1:3] == ('()', 0) and v.a[3] == 0


def spread_atom(key):
    """a condition that parts of a compound key depend on"""
    if key.k == 'phi':
        for _, g in key.a[0]:
            if g > 1:
                return B.atoms(g)[0]
    if key.k == 'agg' and key.a[0] not in ('closure', 'txt'):
        for x in key.a[2]:
            t = spread_atom(x)
            if t is not None:
                return t
    if key.k == 'coll' and key.a[0] == 'vec' and key.a[1] is None and len(key.a[2]) > 1:
        return split_atom(key)
    return None


def has_piece(f, p, key, kind):
    if p.k == 'item':
        v = p.a[1]
        if kind == 'map':
            v = proj(v, '()', 0, 0)
        return OR(f, AND(p.a[0], eq(v, key)))
    if p.k == 'for':
        var, src, stop, sub_ = p.a
        if removes(p):
            if not removes_only(p):
                return B.var(mk('b', mk('phas', p, key, BOOL(f))))
            c = 1
            for q in sub_:
                c = has_piece(c, q, key, kind)
            return AND(f, NOT(exists(var, src, stop, NOT(c))))
        c = 0
        for q in sub_:
            c = has_piece(c, q, key, kind)
        return OR(f, exists(var, src, stop, c))
    if p.k == 'rm':
        return AND(f, NOT(AND(p.a[0], eq(p.a[1], key))))
    if p.k == 'nest':
        return OR(f, AND(p.a[0], eq(p.a[1], key)))
    return OR(f, B.var(mk('b', mk('phas', p, key))))     # adds only


def load_for(c, base, p, key, i):
    """value under key in a map made of one entry per element of a set or map, under that element"""
    var, src, stop, sub_ = p.a
    if base is None and i == 0 and stop == 0 and len(sub_) == 1 and sub_[0].k == 'item' and sub_[0].a[0] == 1:
        k, v = proj(sub_[0].a[1], '()', 0, 0), proj(sub_[0].a[1], '()', 0, 1)
        kd = kind_of(src)
        if k is var and kd == 'set':
            return subst(v, {var: key})
        if kd == 'map' and k.k == 'fld' and k.a[0] is var and k.a[1:3] == ('()', 0) and k.a[3] == 0:
            return subst(v, {var: TUP(key, load(src, key))})
    return mk('load', c, key)


def load(c, key):
    """value stored under key in map c (assuming it is present)"""
    c, key = fz(strip(c)), strip(key)
    if c.k == 'phi':
        return phi([(load(w, key), AND(g, has(w, key))) for w, g in c.a[0]])
    if key.k == 'phi':
        return phi([(load(restrict(c, g), w), g) for w, g in key.a[0]])
    t = spread_atom(key)
    if t is not None:
        g = B.var(t)
        return phi([(load(c, replace_term(key, t, 1)), g), (load(c, replace_term(key, t, 0)), NOT(g))])
    if c is BOT or key is BOT:
        return BOT
    if c.k == 'coll':
        kind, base, ps = c.a
        out = []
        rest = 1
        for i, p in reversed(list(enumerate(ps))):
            if p.k == 'item':
                m = AND(p.a[0], eq(proj(p.a[1], '()', 0, 0), key))
                out.append((proj(p.a[1], '()', 0, 1), AND(rest, m)))
                rest = AND(rest, NOT(m))
                if rest == 0:
                    break
            elif removes_only(p):
                continue
            elif p.k == 'for':
                below = mk('coll', kind, base, ps[:i + 1])
                out.append((load_for(below, base, p, key, i), rest))
                rest = 0
                break
            else:
                out.append((mk('load', mk('coll', kind, base, ps[:i + 1]), key), rest))
                rest = 0
                break
        if rest and base is not None:
            out.append((load(base, key), rest))
        return phi(out)
    if key.k == 'fld' and key.a[1:] == ('()', 0, 0) and key.a[0].k == 'elem' and key.a[0].a[0] is c:
        return mk('fld', key.a[0], '()', 0, 1)
    return mk('load', c, key)


def mapset(c, key, val):
    """map c with key bound to val"""
    c, key, val = strip(c), strip(key), strip(val)
    if c.k == 'phi':
        return phi([(mapset(w, key, restrict(val, g)), g) for w, g in c.a[0]])
    if c.k == 'coll' and c.a[0] == 'map':
        it = items(TUP(key, val))
        if not map_adds(it[0], key):
            ps = tuple(p for p in c.a[2] if not (p.k == 'item' and p.a[0] == 1 and proj(p.a[1], '()', 0, 0) is key))
        else:
            ps = tuple(p for p in c.a[2] if p is not it[0])
        return coll('map', c.a[1], ps + it)
    return coll('map', c, items(TUP(key, val)))


def index(c, i):
    c, i = strip(c), strip(i)
    if c.k == 'phi':
        return phi([(index(w, restrict(i, g)), g) for w, g in c.a[0]])
    if i.k == 'phi':
        return phi([(index(restrict(c, g), w), g) for w, g in i.a[0]])
    if c is BOT or i is BOT:
        return BOT
    if i.k == 'ix' and i.a[0].k == 'elem':
        s = i.a[0].a[0]
        while s.k == 'skip':
            s = s.a[0]
        if s is c:
            return i.a[0]
    if i.k == 'lin' and c.k != 'skip':
        for t, k in i.a[1]:
            if k == 1 and t.k == 'ix' and t.a[0].k == 'elem' and t.a[0].a[0].k == 'skip' and t.a[0].a[0].a[0] is c \
                    and sub(i, t) is t.a[0].a[0].a[1]:
                return t.a[0]
    if is_txt(c) and i.k == 'int' and i.a[0] <= 8:
        for _ in range(i.a[0]):
            c = txt_skip(c)
        return txt_item(c)
    if c.k == 'skip':
        return index(c.a[0], add(c.a[1], i))
    if c.k == 'array' and i.k == 'int' and i.a[0] < len(c.a[0]):
        return c.a[0][i.a[0]]
    if c.k == 'coll' and c.a[0] == 'vec':
        kind, base, ps = c.a
        if base is None and i.k == 'int' and i.a[0] < len(ps) and all(p.k == 'item' and p.a[0] == 1 for p in ps[:i.a[0] + 1]):
            return ps[i.a[0]].a[1]
        if base is None and len(ps) == 1 and ps[0].k == 'for' and ps[0].a[2] == 0 and len(ps[0].a[3]) == 1 \
                and ps[0].a[3][0].k == 'item' and ps[0].a[3][0].a[0] == 1:
            var, src = ps[0].a[0], ps[0].a[1]
            return subst(ps[0].a[3][0].a[1], {var: index(src, i)})
        if base is None and i is INT(0) and len(ps) == 1 and ps[0].k == 'for' and ps[0].a[2] == 0 and len(ps[0].a[3]) == 1 \
                and ps[0].a[3][0].k == 'item' and ps[0].a[0] in bdd_fv(ps[0].a[3][0].a[0]):
            # the first one that is not left out
            var, src, _, (it,) = ps[0].a
            fx = mk('first', var, src, it.a[0])
            copy_marks(var, fx)
            return subst(it.a[1], {var: fx})
        if base is not None and ps and all(p.k == 'item' and p.a[0] == 1 for p in ps):
            d = sub(i, length(base))
            if d.k == 'int' and 0 <= d.a[0] < len(ps):
                return ps[d.a[0]].a[1]
        if base is not None and 0 < len(ps) <= 4 and all(p.k == 'item' for p in ps) and i.k != 'int' and fz(c) is c:
            # an element of the old part or one of those appended
            n = length(base)
            rest = NOT(lt(i, n))
            out = [(index(base, i), NOT(rest))]
            for p in ps:
                g = AND(rest, p.a[0], eq(i, n))
                out.append((p.a[1], g))
                rest = AND(rest, NOT(g))
                n = add(n, phi([(INT(1), p.a[0]), (INT(0), NOT(p.a[0]))]))
            return phi(out + [(mk('idx', c, i), rest)])
    if c.k == 'setix':
        g = eq(i, c.a[1])
        if g == 1:
            return c.a[2]
        return phi([(c.a[2], g), (index(c.a[0], i), NOT(g))])
    return mk('idx', c, i)


def skipc(c, n):
    c, n = strip(c), strip(n)
    if n.k == 'int' and n.a[0] == 0:
        return c
    if is_txt(c) and n.k == 'int' and n.a[0] <= 8:
        for _ in range(n.a[0]):
            c = txt_skip(c)
        return c
    if c.k == 'skip':
        return skipc(c.a[0], add(c.a[1], n))
    if c.k == 'coll' and c.a[0] == 'vec' and c.a[1] is None:
        ps = c.a[2]
        if n.k == 'int' and n.a[0] <= len(ps) and all(p.k == 'item' and p.a[0] == 1 for p in ps[:n.a[0]]):
            return coll('vec', None, ps[n.a[0]:])
        if len(ps) == 1 and ps[0].k == 'for' and ps[0].a[2] == 0 and len(ps[0].a[3]) == 1 \
                and ps[0].a[3][0].k == 'item' and ps[0].a[3][0].a[0] == 1:
            var, src, _, sub_ = ps[0].a
            s2 = skipc(src, n)
            w = mk('elem', s2, 0)
            copy_marks(var, w)
            return coll('vec', None, (mk('for', w, s2, 0, tuple(subst(p, {var: w}) for p in sub_)),))
    return mk('skip', c, n)


# ---------------------------------------------------------------- restriction
_rmemo = {}


def restrict(v, g):
    """v under the assumption g"""
    if g == 1 or v is None:
        return v
    if g == 0:
        return v
    if v.k in ('phi', 'bool', 'agg', 'addr', 'coll'):
        k = (v, g)
        r = _rmemo.get(k)
        if r is not None:
            return r
        if v.k == 'phi':
            r = phi([(restrict(w, AND(g, h)), B.constrain(h, g)) for w, h in v.a[0] if AND(h, g)])
            if r is BOT:
                r = v
        elif v.k == 'bool':
            r = BOOL(B.constrain(v.a[0], g))
        elif v.k == 'addr':
            r = mk('addr', restrict(v.a[0], g))
        elif v.k == 'coll':
            lits = known_tests(g)
            r = v
            if lits:
                ps = known_pieces(v.a[2], lits)
                if ps is not None:
                    r = coll(v.a[0], v.a[1], ps)
        else:
            adt, var, vals = v.a
            nv = tuple(restrict(x, g) for x in vals)
            r = v if nv == vals else mk('agg', adt, var, nv)
        _rmemo[k] = r
        return r
    return v


_kmemo = {}


def known_tests(g):
    """the tests of a whole collection that the guard g decides"""
    r = _kmemo.get(g)
    if r is None:
        r = {}
        for b in B.support(g):
            if B.atom_of[b].k == 'exists':
                if B.assign(g, b, 0) == 0:
                    r[b] = 1
                elif B.assign(g, b, 1) == 0:
                    r[b] = 0
        _kmemo[g] = r
    return r


def known_guard(h, lits):
    if h > 1:
        for b in lits.keys() & B.support(h):
            h = B.assign(h, b, lits[b])
    return h


def known_pieces(ps, lits):
    """ps with the tests in lits decided, None if that changes nothing"""
    out = []
    changed = False
    for p in ps:
        if p.k == 'for':
            x, S, stop, sub_ = p.a
            sub2 = known_pieces(sub_, lits)
            if stop > 1 and known_guard(exists(x, S, 0, stop), lits) == 0:
                # never left early
                sub2 = tuple(mk('item', B.constrain(q.a[0], NOT(stop)), q.a[1]) if q.k == 'item' else q for q in (sub_ if sub2 is None else sub2))
                stop = 0
            elif stop == 0:
                # what no element of S satisfies
                no = 1
                for b, val in lits.items():
                    y, S2, st2, c = B.atom_of[b].a
                    if not val and S2 is S and st2 == 0:
                        no = AND(no, NOT(subst_bdd(c, {y: x})))
                if no > 1:
                    now = sub_ if sub2 is None else sub2
                    sub3 = tuple(mk('item', B.constrain(q.a[0], no), q.a[1]) if q.k == 'item' and q.a[0] > 1 and B.support(q.a[0]) & B.support(no) else q for q in now)
                    sub3 = tuple(q for q in sub3 if q.k != 'item' or q.a[0])
                    if sub3 != now:
                        sub2 = sub3
            if sub2 is not None:
                changed = True
                if not sub2:
                    continue
                p = mk('for', x, S, stop, sub2)
        else:
            h = known_guard(p.a[0], lits)
            if h != p.a[0]:
                changed = True
                if not h:
                    continue
                p = mk(p.k, h, *p.a[1:])
        out.append(p)
    return tuple(out) if changed else None


# ---------------------------------------------------------------- substitution
REBUILD = {}


def subst_bdd(f, m, memo=None):
    if f < 2 or not (bdd_fv(f) & m.keys()):
        return f
    return B.compose(f, lambda a: subst_atom(a, m))


def subst_atom(a, m):
    if not (a.fv & m.keys()):
        return B.var(a)
    k = a.k
    if k == 'is':
        return is_variant(subst(a.a[0], m), a.a[1], a.a[2])
    if k == 'le':
        return le0(sub(subst(a.a[0], m), INT(a.a[1])))
    if k == 'eq':
        return eq(subst(a.a[0], m), subst(a.a[1], m))
    if k == 'ptreq':
        return ptr_eq(subst(a.a[0], m), subst(a.a[1], m))
    if k == 'lt':
        # var 'lt' is only meaningful under not-eq
        x, y = subst(a.a[0], m), subst(a.a[1], m)
        return glt(x, y)
    if k == 'has':
        return has(subst(a.a[0], m), subst(a.a[1], m))
    if k == 'exists':
        var, src, stop, c = a.a
        m2 = {x: y for x, y in m.items() if x is not var}
        s2 = subst(src, m2)
        v2, stop, c = fresh_bound(var, src, s2, stop, c, m2)
        return exists_over(v2, s2, subst_bdd(stop, m2), subst_bdd(c, m2))
    if k == 'b':
        return truth(subst(a.a[0], m))
    return B.var(mk(k, *[subst_any(x, m) for x in a.a]))


def exists_over(var, src, stop, c):
    """exists over a source that may have become a known collection"""
    if src.k == 'coll' or src.k == 'phi':
        return pieces_nonempty(map_pieces(as_pieces(src, var.a[1]), var, stop, lambda m: (subst_bdd(stop, m), (mk('item', subst_bdd(c, m), UNIT),))))
    return exists(var, src, stop, c)


def map_pieces(ps, var, stop, fn):
    """replace each item v of ps by the pieces of fn({var: v})"""
    out = []
    if stop != 0:
        alive = 1
        for i, p in enumerate(ps):
            if p.k == 'item':
                st, q = fn({var: p.a[1]})
                out.extend(guard_pieces(q, AND(p.a[0], alive)))
                alive = AND(alive, NOT(AND(p.a[0], st)))
            elif i == len(ps) - 1 and p.k == 'for' and p.a[2] == 0 and len(p.a[3]) == 1 and p.a[3][0].k == 'item':
                x, s, _, (it,) = p.a
                st, q = fn({var: it.a[1]})
                r = forp(x, s, AND(it.a[0], st), guard_pieces(q, it.a[0]))
                if r is not None:
                    out.extend(guard_pieces((r,), alive))
            else:
                w = coll('vec', None, tuple(ps[i:]))
                v2 = mk('elem', w, var.a[1] if var.k == 'elem' else 0)
                st, q = fn({var: v2})
                r = forp(v2, w, st, tuple(q))
                if r is not None:
                    out.extend(guard_pieces((r,), alive))
                break
        return out
    for p in ps:
        if p.k == 'item':
            st, q = fn({var: p.a[1]})
            out.extend(guard_pieces(q, p.a[0]))
        elif p.k == 'for':
            x, s, st, sub_ = p.a
            r = forp(x, s, st, map_pieces(sub_, var, stop, fn))
            if r is not None:
                out.append(r)
    return out


def fresh_bound(var, src, s2, stop, x, m):
    """bound variable for a substituted source, avoiding capture"""
    if var.k != 'elem':
        return var, stop, x
    fvs = EMPTY
    for y in m.values():
        fvs = fvs | y.fv
    n = 0
    inner = (bdd_fv(stop) | (bdd_fv(x) if isinstance(x, int) else _fv(x))) - {var}
    while True:
        w = mk('elem', s2, n)
        if w is var and w not in fvs:
            return var, stop, x
        if w not in fvs and w not in inner:
            break
        n += 1
    copy_marks(var, w)
    mm = {var: w}
    return w, subst_bdd(stop, mm), (subst_bdd(x, mm) if isinstance(x, int) else tuple(subst(p, mm) for p in x))


def subst_any(x, m):
    if isinstance(x, T):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


_smemo = {}


def subst(t, m):
    if not (t.fv & m.keys()):
        return t
    if t in m:
        return m[t]
    key = (t, tuple(sorted(((a.id, b.id) for a, b in m.items()))))
    r = _smemo.get(key)
    if r is None:
        r = _subst(t, m)
        if t in KIND and r.k not in ('coll', 'phi'):
            KIND.setdefault(r, KIND[t])
        if t in UNSIGNED and r.k not in ('int', 'phi', 'lin'):
            UNSIGNED.add(r)
        _smemo[key] = r
    return r


def _subst(t, m):
    k, a = t.k, t.a
    if k == 'elem':
        s2 = subst(a[0], m)
        return mk('elem', s2, a[1])
    if k == 'bool':
        return BOOL(subst_bdd(a[0], m))
    if k == 'phi':
        return phi([(subst(v, m), subst_bdd(g, m)) for v, g in a[0]])
    if k == 'agg':
        vals = tuple(subst(v, m) for v in a[2])
        return AGG(a[0], a[1], vals) if a[0] != 'closure' else mk('agg', a[0], a[1], vals)
    if k == 'fld':
        return proj(subst(a[0], m), a[1], a[2], a[3])
    if k == 'lin':
        r = INT(a[0])
        for x, c in a[1]:
            r = add(r, scale(subst(x, m), c))
        return r
    if k == 'len':
        return length(subst(a[0], m))
    if k == 'ix':
        e = subst(a[0], m)
        if e.k == 'idx':
            return e.a[1]
        return mk('ix', e)
    if k == 'coll':
        base = subst(a[1], m) if a[1] is not None else None
        out = []
        for p in a[2]:
            out.extend(subst_piece(p, m))
        if base is not None and base.k == 'phi':
            return phi([(coll(a[0], w, tuple(out)), g) for w, g in base.a[0]])
        return coll(a[0], base, tuple(out))
    if k in ('item', 'for'):
        r = subst_piece(t, m)
        return r[0] if len(r) == 1 else (r[0] if r else mk('item', 0, UNIT))
    if k == 'load':
        return load(subst(a[0], m), subst(a[1], m))
    if k == 'idx':
        return index(subst(a[0], m), subst(a[1], m))
    if k == 'skip':
        return skipc(subst(a[0], m), subst(a[1], m))
    if k == 'call':
        return call(a[0], tuple(subst(x, m) for x in a[1]))
    if k == 'first':
        var, src, stop = a
        m2 = {x: y for x, y in m.items() if x is not var}
        s2 = subst(src, m2)
        v2, stop, _ = fresh_bound(var, src, s2, stop, 1, m2)
        return mk('first', v2, s2, subst_bdd(stop, m2))
    if k == 'loop':
        m2 = {x: y for x, y in m.items() if x not in a[0]}
        return mk('loop', a[0], tuple(subst(x, m) for x in a[1]), tuple(subst(x, m2) for x in a[2]), g_(subst_bdd(a[3].b, m2)))
    if k == 'fold':
        var, src, stop, bound, inits, nexts = a
        m2 = {x: y for x, y in m.items() if x is not var and x not in bound}
        s2 = subst(src, m2)
        v2, st, nx = fresh_bound(var, src, s2, stop.b, nexts, m2)
        return mk('fold', v2, s2, g_(subst_bdd(st, m2)), bound, tuple(subst(x, m) for x in inits), tuple(subst(x, m2) for x in nx))
    if k == 'lam':
        return mk('lam', a[0], subst(a[1], {x: y for x, y in m.items() if x not in a[0]}))
    return mk(k, *[subst_any(x, m) for x in a])


_REPL = [None]


def replace_term(t, old, new):
    """t with every occurrence of the term `old` replaced by `new`"""
    memo = {}

    def f(u):
        if u is old:
            return new
        if not (old.fv <= u.fv):
            return u
        r = memo.get(u)
        if r is None:
            r = memo[u] = g(u)
        return r

    def fb(b):
        if b < 2 or not (old.fv <= bdd_fv(b)):
            return b
        return B.compose(b, fa)

    def fa(a):
        if a is old:
            return new
        if not (old.fv <= a.fv):
            return B.var(a)
        k = a.k
        if k == 'is':
            return is_variant(f(a.a[0]), a.a[1], a.a[2])
        if k == 'le':
            return le0(sub(f(a.a[0]), INT(a.a[1])))
        if k == 'eq':
            return eq(f(a.a[0]), f(a.a[1]))
        if k == 'ptreq':
            return ptr_eq(f(a.a[0]), f(a.a[1]))
        if k == 'lt':
            return glt(f(a.a[0]), f(a.a[1]))
        if k == 'has':
            return has(f(a.a[0]), f(a.a[1]))
        if k == 'exists':
            var, src, stop, c = a.a
            s2 = f(src)
            v2, stop, c = fresh_bound(var, src, s2, stop, c, {})
            return exists_over(v2, s2, fb(stop), fb(c))
        if k == 'b':
            return truth(f(a.a[0]))
        return B.var(mk(k, *[fany(x) for x in a.a]))

    def fany(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, G):
            return g_(fb(x.b))
        if isinstance(x, tuple):
            return tuple(fany(y) for y in x)
        return x

    def g(u):
        k, a = u.k, u.a
        if k == 'bool':
            return BOOL(fb(a[0]))
        if k == 'phi':
            return phi([(f(v), fb(h)) for v, h in a[0]])
        if k == 'agg':
            vals = tuple(f(v) for v in a[2])
            return AGG(a[0], a[1], vals) if a[0] != 'closure' else mk('agg', a[0], a[1], vals)
        if k == 'fld':
            return proj(f(a[0]), a[1], a[2], a[3])
        if k == 'lin':
            r = INT(a[0])
            for x, c in a[1]:
                r = add(r, scale(f(x), c))
            return r
        if k == 'len':
            return length(f(a[0]))
        if k == 'load':
            return load(f(a[0]), f(a[1]))
        if k == 'idx':
            return index(f(a[0]), f(a[1]))
        if k == 'skip':
            return skipc(f(a[0]), f(a[1]))
        if k == 'coll':
            out = []
            for p in a[2]:
                out.extend(fp(p))
            return coll(a[0], f(a[1]) if a[1] is not None else None, tuple(out))
        if k in ('item', 'for', 'nest', 'rm'):
            r = fp(u)
            return r[0] if len(r) == 1 else mk('item', 0, UNIT)
        if k == 'call':
            return call(a[0], tuple(f(x) for x in a[1]))
        if k == 'first':
            s2 = f(a[1])
            v2, stop, _ = fresh_bound(a[0], a[1], s2, a[2], 1, {})
            return mk('first', v2, s2, fb(stop))
        r = mk(k, *[fany(x) for x in a])
        copy_marks(u, r)
        return r

    def fp(p):
        if p.k == 'item':
            h = fb(p.a[0])
            return [mk('item', h, f(p.a[1]))] if h else []
        if p.k == 'for':
            var, src, stop, sub_ = p.a
            s2 = f(src)
            v2, stop, sub2 = fresh_bound(var, src, s2, stop, tuple(sub_), {})
            body = []
            for q in sub2:
                body.extend(fp(q))
            r = forp(v2, s2, fb(stop), body)
            return [r] if r is not None else []
        return [mk(p.k, fb(p.a[0]), *[fany(x) for x in p.a[1:]])]
    return f(t)


def subst_piece(p, m):
    if p.k == 'item':
        g = subst_bdd(p.a[0], m)
        return [mk('item', g, restrict(subst(p.a[1], m), g))] if g else []
    if p.k == 'for':
        var, src, stop, sub_ = p.a
        m2 = {x: y for x, y in m.items() if x is not var}
        s2 = subst(src, m2)
        v2, stop, sub2 = fresh_bound(var, src, s2, stop, tuple(sub_), m2)
        stop = subst_bdd(stop, m2)
        body = []
        for q in sub2:
            body.extend(subst_piece(q, m2))
        if s2.k in ('coll', 'phi') or (s2.k == 'agg' and s2.a[0] == OPT):
            return map_pieces(as_pieces(s2, v2.a[1]), v2, stop, lambda mm: (subst_bdd(stop, mm), sum([subst_piece(q, mm) for q in body], [])))
        r = forp(v2, s2, stop, body)
        return [r] if r is not None else []
    return [mk(p.k, *[subst_any(x, m) if not isinstance(x, int) else subst_bdd(x, m) for x in p.a])]


def call(f, args):
    """opaque pure application; distributes over alternatives of its arguments"""
    args = tuple(strip(x) for x in args)
    for i, x in enumerate(args):
        if x.k == 'phi' and len(x.a[0]) <= 6:
            return phi([(call(f, args[:i] + (w,) + tuple(restrict(y, g) for y in args[i + 1:])), g) for w, g in x.a[0]])
        if x is BOT:
            return BOT
    if f == 'strlen' and args[0].k == 'call' and args[0].a[0] == 'substr':
        return sub(args[0].a[1][2], args[0].a[1][1])
    if f == 'substr' and args[0].k == 'call' and args[0].a[0] == 'substr':
        # a part of a part (what lies outside the outer part is a panic of the slicing)
        t, lo, hi = args[0].a[1]
        return call('substr', (t, add(lo, args[1]), add(lo, args[2])))
    return mk('call', f, args)


# ---------------------------------------------------------------- display
def show_bdd(f, depth=3):
    if f == 0:
        return 'false'
    if f == 1:
        return 'true'
    # sum of products
    out = []

    def rec(f, lits):
        if len(out) > 8:
            return
        if f == 1:
            out.append(' & '.join(lits) or 'true')
            return
        if f == 0:
            return
        v, lo, hi = B.nodes[f]
        s = show(B.atom_of[v], depth)
        rec(hi, lits + [s])
        rec(lo, lits + ['!' + s])
    rec(f, [])
    return ' | '.join(out[:8]) + (' | ...' if len(out) > 8 else '')


def short(n):
    return n.split('::')[-1] if '<' not in n else n


def show(t, depth=12):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '~'
    d = depth - 1
    k, a = t.k, t.a
    s = lambda x: show(x, d)
    if k in ('sym', 'str'):
        return repr(a[0]) if k == 'str' else a[0]
    if k == 'int':
        return str(a[0])
    if k == 'bool':
        return '[' + show_bdd(a[0], d) + ']'
    if k == 'agg':
        adt, var, vals = a
        if adt == '()':
            return '(' + ', '.join(s(x) for x in vals) + ')'
        if adt == 'closure':
            return '|%s|' % var + '(' + ', '.join(s(x) for x in vals) + ')'
        n = NVAR.get(adt, [short(adt)])
        n = n[var] if len(n) > 1 else short(adt)
        return n + ('{' + ', '.join(s(x) for x in vals) + '}' if vals else '')
    if k == 'fld':
        adt, var, i = a[1:]
        n = str(i)
        if adt in ADT:
            try:
                n = ADT[adt]['variants'][var][i]
            except Exception:
                pass
        if len(NVAR.get(adt, 'x')) > 1:
            n = NVAR[adt][var] + '.' + n
        return s(a[0]) + '.' + n
    if k == 'phi':
        return '{' + '; '.join('%s if %s' % (s(v), show_bdd(g, d)) for v, g in a[0]) + '}'
    if k == 'lin':
        r = '+'.join(('%d*' % c if c != 1 else '') + s(x) for x, c in a[1])
        return '(' + r + ('%+d' % a[0] if a[0] else '') + ')'
    if k == 'elem':
        return 'e%d<%s>' % (a[1], show(a[0], min(d, 4)))
    if k == 'item':
        return ('' if a[0] == 1 else '[%s] => ' % show_bdd(a[0], d)) + s(a[1])
    if k == 'for':
        return 'for %s%s: {%s}' % (s(a[0]), '' if a[2] == 0 else ' until [%s]' % show_bdd(a[2], d), ', '.join(s(p) for p in a[3]))
    if k == 'coll':
        return '%s(%s%s)' % (a[0], s(a[1]) + ' ++ ' if a[1] is not None else '', ', '.join(s(p) for p in a[2]))
    if k == 'exists':
        return 'exists(%s%s: %s)' % (s(a[0]), '' if a[2] == 0 else ' until [%s]' % show_bdd(a[2], d), show_bdd(a[3], d))
    if k == 'first':
        return 'first(%s: %s)' % (s(a[0]), show_bdd(a[2], d))
    if k == 'call':
        return '%s(%s)' % (short(a[0]), ', '.join(s(x) for x in a[1]))
    if k == 'is':
        return '%s is %s' % (s(a[0]), NVAR.get(a[1], {}) and NVAR[a[1]][a[2]])
    if k == 'le':
        return '%s<=%s' % (s(a[0]), a[1])
    if k in ('eq', 'lt', 'ptreq'):
        return '%s %s %s' % (s(a[0]), {'eq': '==', 'lt': '<', 'ptreq': '==&'}[k], s(a[1]))
    if k == 'has':
        return '(%s in %s)' % (s(a[1]), s(a[0]))
    if k == 'load':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if k == 'idx':
        return '%s[#%s]' % (s(a[0]), s(a[1]))
    if k == 'b':
        return s(a[0])
    return k + '(' + ', '.join(s(x) if isinstance(x, T) else ('(' + ', '.join(show(y, d) for y in x) + ')' if isinstance(x, tuple) else str(x)) for x in a) + ')'


_lv = {}


def binders(t):
    """highest level of recurrence variables, free or bound, in t"""
    if isinstance(t, T):
        r = _lv.get(t)
        if r is None:
            k, a = t.k, t.a
            if k == 'mu':
                r = a[1] if a[0] == '#' else 0
            elif k == 'bool':
                r = binders_b(a[0])
            elif k == 'phi':
                r = max([0] + [max(binders(v), binders_b(g)) for v, g in a[0]])
            elif k in ('item', 'nest', 'rm'):
                r = max(binders_b(a[0]), binders(a[1:]))
            elif k == 'for':
                r = max(binders(a[0]), binders(a[1]), binders_b(a[2]), binders(a[3]))
            elif k == 'exists':
                r = max(binders(a[0]), binders(a[1]), binders_b(a[2]), binders_b(a[3]))
            elif k == 'first':
                r = max(binders(a[0]), binders(a[1]), binders_b(a[2]))
            else:
                r = binders(a)
            _lv[t] = r
        return r
    if isinstance(t, G):
        return binders_b(t.b)
    if isinstance(t, tuple):
        return max([0] + [binders(x) for x in t])
    return 0


_lvb = {}


def binders_b(f):
    if f < 2:
        return 0
    r = _lvb.get(f)
    if r is None:
        r = _lvb[f] = max(binders(B.atom_of[v]) for v in B.support(f))
    return r
