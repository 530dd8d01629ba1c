"""Rule interface: obligations over the summaries of the current source."""
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0])
from mir import *
import terms as TM
import std
import words


class Missing(Exception):
    pass


class Ob:
    def __init__(self, rule, ok, where, detail, key=None):
        self.rule, self.ok, self.where, self.detail, self.key = rule, ok, where, detail, key or (rule + '@' + where)


def entailed(d):
    """facts between the atoms of d: a collection something is found in is not empty, bounds are ordered"""
    f = 1
    les = {}
    for v in B.support(d):
        x = B.atom_of[v]
        if x.k == 'exists':
            f = AND(f, OR(NOT(B.node(v, 0, 1)), nonempty(x.a[1])))
        elif x.k == 'has':
            f = AND(f, OR(NOT(B.node(v, 0, 1)), nonempty(x.a[0])))
        elif x.k == 'le':
            les.setdefault(x.a[0], []).append((x.a[1], v))
    for cs in les.values():
        cs.sort()
        for (c, v), (d, w) in zip(cs, cs[1:]):      # m <= c implies m <= d
            f = AND(f, OR(NOT(B.node(v, 0, 1)), B.node(w, 0, 1)))
    return f


def possible(d, test=None, depth=6, done=()):
    """can d hold (for terms of test that then differ)?  equalities are used as equalities"""
    if d == 0:
        return False
    if test is not None:
        v, w = test
        if v is w:
            return False
    d = AND(d, entailed(d))
    if d > 1:
        d = AND(d, words.facts(frozenset(B.support(d))))
    if d == 0:
        return False
    if depth:
        r = absent(d, test, depth, done)
        if r is not None:
            return r
        r = pin(d, test, depth, done)
        if r is not None:
            return r
        for v in sorted(B.support(d)):
            e = B.atom_of[v]
            if e.k == 'eq' and e not in done:
                x, y = e.a
                if x is not y and (subterm(x, y) or subterm(y, x)) and not (x.fv | y.fv) & bound_vars(d):
                    # a part of a value is a value it was found by
                    if subterm(x, y):
                        x, y = y, x
                    d1, d0 = B.assign(d, v, 1), B.assign(d, v, 0)
                    t1 = None if test is None else tuple(TM.replace_term(t, x, y) for t in test)
                    return possible(d0, test, depth - 1, done + (e,)) or possible(truth(TM.replace_term(BOOL(d1), x, y)), t1, depth - 1, done + (e,))
                if x in y.fv or y in x.fv or (x.k != 'sym' and y.k != 'sym' and (subterm(x, y) or subterm(y, x))):
                    continue
                if x.k != 'sym' and (y.k == 'sym' or (y.id > x.id if (x.k == 'fld') == (y.k == 'fld') else x.k == 'fld')):
                    # parts of values are kept, so that the values can be put together from them
                    x, y = y, x
                m = {x: y}
                d1, d0 = B.assign(d, v, 1), B.assign(d, v, 0)
                t1 = None if test is None else tuple(rsub(t, m) for t in test)
                return possible(d0, test, depth - 1, done + (e,)) or possible(rsub_bdd(d1, m), t1, depth - 1, done)
    if test is not None:
        v, w = test
        if is_phi(v) or is_phi(w):
            for v1, g1 in branches(v):
                for w1, g2 in branches(w):
                    g = AND(d, AND(g1, g2))
                    if g and possible(g, (restrict(v1, g), restrict(w1, g)), depth, done):
                        return True
            return False
    return True


def bound_vars(d):
    return frozenset()


def absent(d, test, depth, done):
    """nothing is in the set kept under a key that is not there"""
    for v in sorted(B.support(d)):
        e = B.atom_of[v]
        if e.k != 'has' or e in done:
            continue
        l = mk('load', *e.a)
        if TM.kind_of(l) != 'set':
            continue
        d1, d0 = AND(d, B.node(v, 0, 1)), B.assign(d, v, 0)
        x0 = truth(TM.replace_term(BOOL(d0), l, TM.EMPTYC('set')))
        if x0 == d0:
            continue
        t1 = None if test is None else tuple(TM.replace_term(t, l, TM.EMPTYC('set')) for t in test)
        return possible(d1, test, depth - 1, done + (e,)) or possible(AND(x0, B.node(v, 1, 0)), t1, depth - 1, done + (e,))
    return None


def pin(d, test, depth, done):
    """d says that two integers are equal: use one for the other"""
    for v in sorted(B.support(d)):
        e = B.atom_of[v]
        if e.k != 'le' or e in done:
            continue
        w = B.var_of.get(mk('le', e.a[0], e.a[1] - 1))
        if w is None or w not in B.support(d):
            continue
        k0, m = TM.lin_of(e.a[0])
        ts = sorted((t for t, k in m.items() if k in (1, -1)), key=lambda t: (t.k != 'sym', -t.id))
        for l in ts:
            y = scale_to(m, l, e.a[1] - k0)
            if l in y.fv or (l.k != 'sym' and subterm(l, y)):
                continue
            eqn = AND(B.node(v, 0, 1), NOT(B.node(w, 0, 1)))
            d1, d0 = AND(d, eqn), AND(d, NOT(eqn))
            if d1 == 0:
                break
            mm = {l: y}
            t1 = None if test is None else tuple(rsub(t, mm) for t in test)
            x1 = rsub_bdd(d1, mm)
            if d1 != x1 and possible(x1, t1, depth - 1, done):
                return True
            if d1 == x1:
                break
            return possible(d0, test, depth, done + (e,))
    return None


def scale_to(m, l, n):
    k = m[l]
    return TM.scale(TM.sub(INT(n), TM.mklin(0, {t: x for t, x in m.items() if t is not l})), k)


def subterm(x, y):
    memo = set()

    def go(t):
        if t is x:
            return True
        if not isinstance(t, (tuple,)) and not hasattr(t, 'k'):
            return False
        if hasattr(t, 'k'):
            if t.id in memo:
                return False
            memo.add(t.id)
            return any(go(u) for u in t.a)
        return any(go(u) for u in t)
    return go(y)


def rsub(t, m):
    for x, y in m.items():
        t = subst(t, m) if x.k == 'sym' else TM.replace_term(t, x, y)
    return t


def rsub_bdd(f, m):
    if f in (0, 1):
        return f
    for x, y in m.items():
        if x.k == 'sym':
            f = subst_bdd(f, m)
        else:
            f = truth(TM.replace_term(BOOL(f), x, y))
    return f


class A:
    """analysis of one property"""

    def __init__(self, prog, pid, tier='quick'):
        self.p, self.pid, self.tier = prog, pid, tier
        self.obs = []
        self.fns = set()
        self.cache = {}
        self.sites = 0
        self.loops = 0
        self.notes = []

    # ------------------------------------------------------ anchors
    def has(self, name):
        return name in self.p.bodies

    def body(self, name):
        b = self.p.bodies.get(name)
        if b is None:
            raise Missing(name)
        return b

    def find(self, pred):
        return [n for n, b in self.p.bodies.items() if pred(n, b)]

    def impl(self, adt, trait, meth):
        """body name of <adt as trait<..>>::meth"""
        for n in self.p.bodies:
            if n.startswith('<%s as %s' % (adt, trait)) and n.endswith('>::' + meth):
                rest = n[len('<%s as %s' % (adt, trait)):]
                if rest[0] in '<>':
                    return n
        raise Missing('<%s as %s>::%s' % (adt, trait, meth))

    # ------------------------------------------------------ summaries
    def S(self, name, contracts=None, args=None, mem=None, key=None):
        k = (name, key, id(contracts) if contracts else 0, tuple(args) if args else None)
        if mem is None and k in self.cache:
            return self.cache[k]
        self.body(name)
        M = Machine(self.p, contracts)
        s = M.summary(name, args, mem)
        s.unknown = M.unknown
        s.flog = M.flog
        s.M = M
        self.fns.update(M.fns_done)
        self.loops += len(s.loops)
        self.cache[k] = s
        return s

    def app(self, name, *args, contracts=None, total=True):
        """value of a call of `name` with these argument values"""
        return self.S(name, contracts, list(args)).val

    def run(self, name, *args, contracts=None):
        return self.S(name, contracts, list(args))

    def collect(self, v, kind='vec'):
        """the items of an iterator value"""
        M = Machine(self.p)
        v = strip(v)
        return std.collect_value(M, Ctx({}), v if v.k == 'it' else mk('it', 'src', v), kind)

    # ------------------------------------------------------ obligations
    def where(self, fn):
        b = self.p.bodies.get(fn)
        return '%s (%s)' % (fn, b['span']) if b else fn

    def note(self, text):
        self.notes.append(text)

    def ob(self, rule, ok, fn, detail='', key=None):
        self.obs.append(Ob(rule, bool(ok), self.where(fn), detail if not ok else '', key or '%s|%s' % (rule, fn)))
        return bool(ok)

    def same(self, rule, fn, got, want, cond=1, w=1200):
        got, want = strip(got), strip(want)
        if cond != 1:
            got, want = restrict(got, cond), restrict(want, cond)
            if got is not want:
                for v in sorted(B.support(cond)):
                    for val in (0, 1):
                        if B.assign(cond, v, 1 - val) == 0:
                            x = B.atom_of[v]
                            got, want = TM.replace_term(got, x, val), TM.replace_term(want, x, val)
        return self.ob(rule, got is want or not possible(cond, (got, want)), fn, 'found    %s\n  required %s' % (show(got)[:w], show(want)[:w]))

    def iff(self, rule, fn, got, want, cond=1):
        d = AND(cond, OR(AND(got, NOT(want)), AND(NOT(got), want)))
        return self.ob(rule, not possible(d), fn, 'found    %s\n  required %s' % (show_bdd(got), show_bdd(want)))

    def never(self, rule, fn, g, detail=''):
        return self.ob(rule, not possible(g), fn, detail or 'possible when %s' % show_bdd(g)[:800])

    def no_panic(self, rule, s, cond=1, allow=()):
        for q in s.panics:
            g, w, f, st = q
            if any(x in w for x in allow):
                continue
            h = AND(g, cond)
            if possible(h) and (not q.ctx or possible(AND(q.happens(), cond))):
                self.ob(rule, False, s.name, 'panic (%s) in %s when %s' % (w, f, show_bdd(h)[:600]), '%s|%s|%s' % (rule, s.name, w))
                return False
        return self.ob(rule, True, s.name)


def ite(g, a, b):
    return phi([(a, g), (b, NOT(g))])


def opt(g, a):
    return phi([(SOME(a), g), (NONE, NOT(g))])


def some_guard(v):
    return is_variant(v, OPT, 1)


def unsome(v):
    return proj(v, OPT, 1, 0)


def fields(prog, adt):
    return [f['name'] for f in prog.adts[adt]['variants'][0]['fields']]


def at(c, i):
    return fzidx(c, i)


def fzidx(c, i):
    return index(c, i)


def each(src, fn):
    """pieces: for x in src: fn(x)"""
    x = mk('elem', strip(src), 0)
    x2 = first_free(src)
    return forp(x2, strip(src), 0, list(fn(x2)))


def first_free(src):
    src = strip(src)
    n = 0
    while mk('elem', src, n) in src.fv:
        n += 1
    return mk('elem', src, n)


def subterms(t, acc=None):
    """all terms inside t, also inside its conditions"""
    seen = {}
    bd = set()

    def b(f):
        if f in bd or f in (0, 1):
            return
        bd.add(f)
        for x in B.atoms(f):
            go(x)

    def go(t):
        if isinstance(t, T):
            if t in seen:
                return
            seen[t] = 1
            k, a = t.k, t.a
            if k == 'bool':
                b(a[0])
            elif k == 'phi':
                for v, g in a[0]:
                    go(v)
                    b(g)
            elif k in ('item', 'nest', 'rm'):
                b(a[0])
                go(a[1:])
            elif k == 'for':
                go((a[0], a[1]))
                b(a[2])
                go(a[3])
            elif k == 'exists':
                go((a[0], a[1]))
                b(a[2])
                b(a[3])
            elif k == 'first':
                go((a[0], a[1]))
                b(a[2])
            else:
                go(a)
        elif isinstance(t, G):
            b(t.b)
        elif isinstance(t, tuple):
            for u in t:
                go(u)
    if isinstance(t, int):
        b(t)
    else:
        go(t)
    return list(seen)


def given(v, g):
    """v under the assumption g, also inside collections"""
    def pieces(ps):
        out = []
        for p in ps:
            if p.k == 'item':
                h = B.constrain(p.a[0], g) if p.a[0] > 1 else p.a[0]
                if h != 0 and AND(g, p.a[0]) != 0:
                    out.append(mk('item', h, go(p.a[1])))
            elif p.k == 'for' and p.a[0] not in bdd_fv(g):
                r = forp(p.a[0], p.a[1], p.a[2], pieces(p.a[3]))
                if r is not None:
                    out.append(r)
            else:
                out.append(p)
        return tuple(out)

    def go(t):
        t = restrict(t, g)
        if t.k == 'coll':
            return coll(t.a[0], go(t.a[1]) if t.a[1] is not None else None, pieces(t.a[2]))
        if t.k == 'agg':
            return mk('agg', t.a[0], t.a[1], tuple(go(x) for x in t.a[2]))
        return t
    return go(v) if g not in (0, 1) else v


def calls_in(t, name):
    return [x for x in subterms(t) if x.k == 'call' and x.a[0] == name]


def XOR(x, y):
    return OR(AND(x, NOT(y)), AND(NOT(x), y))


def cmap(v, fn, n=0):
    """the sequence of fn(x) for the items x of v"""
    def go(ps):
        out = []
        for p in ps:
            if p.k == 'item':
                out.append(mk('item', p.a[0], strip(fn(p.a[1]))))
            elif p.k == 'for':
                r = forp(p.a[0], p.a[1], p.a[2], go(p.a[3]))
                if r is not None:
                    out.append(r)
            else:
                raise Unsupported('sequence with %s' % p.k)
        return out
    v = strip(v)
    return coll('vec', None, tuple(go(as_pieces(v, n))))


def over(v, fn):
    """pieces: fn of each item of the collection"""
    out = []
    v = strip(v)

    def go(ps):
        r = []
        for p in ps:
            if p.k == 'item':
                r += TM.guard_pieces(tuple(fn(p.a[1])), p.a[0])
            else:
                r.append(forp(p.a[0], p.a[1], p.a[2], go(p.a[3])))
        return r
    return go(as_pieces(v))
