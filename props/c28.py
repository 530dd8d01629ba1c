"""C28 termination."""
import re
from rules import *
import mir
import std
from props import c03, c04, c15, c22, ear, rel_collect as RC
from props.c25 import refs

LEVEL = 'proof'
TECHNIQUE = 'ranking of every loop of the control-flow graphs reachable from the public functions: finite iterators, counters with a bound, or rounds that each enlarge a set drawn from a finite universe; cycles of the call graph and of pass requests'
EXPLAIN = ('Every natural loop reachable from a public function must run an iterator over a finite collection, count towards a bound that the loop leaves alone, or be a worklist or round-based loop that is a least fixed point: '
           'it repeats exactly while something new was added to collections that nothing is removed from, and what it adds is built from the finitely many parts of its inputs (positions only up to a length). '
           'The reports of change it relies on are shown to be given only when something was added, and no function or pass leads back to itself. '
           'Iterators and functions handed in by a caller of the general helpers are assumed to be finite.')

WC = 'utils::WasChanged'
DRIVERS = {'utils::change_loop': c22.loop_, 'utils::fixed_point': None, 'utils::apply_fixed_point': None}
ENDLESS = re.compile(r'(?:^|::)(Cycle|Repeat|RepeatWith|RangeFrom|Successors|FromFn|Unfold)$')
ENDING = re.compile(r'(?:^|::)(Take|Zip|Once|Empty|Option)$')
# methods of iterators that go through all items
THROUGH = {'collect', 'count', 'fold', 'try_fold', 'for_each', 'try_for_each', 'last', 'sum', 'product', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'all', 'any', 'find', 'find_map', 'position',
           'rposition', 'partition', 'extend', 'from_iter', 'eq', 'ne', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge', 'unzip', 'reduce', 'is_sorted'}


# ------------------------------------------------------------------ call graph
def graph(a):
    E, asks = {}, {}
    for n, b in a.p.bodies.items():
        out = []
        refs(b['blocks'], out)
        E[n] = {x for f in out for x in (f.get('res'), f['fn']) if x in a.p.bodies}
        asks[n] = [f for f in out if f['fn'].endswith('::get_pass')]
    for n in a.p.bodies:
        if '::{closure' in n:
            par = n[:n.rindex('::{closure')]
            if par in E:
                E[par].add(n)
    return E, asks


def reach(E, roots):
    seen, w = set(), list(roots)
    while w:
        x = w.pop()
        if x not in seen:
            seen.add(x)
            w += E.get(x, ())
    return seen


def cycles(E):
    """the sets of functions that lead back to themselves"""
    out = []
    R = {n: reach(E, E[n]) for n in E}
    done = set()
    for n in sorted(E):
        if n in R[n] and n not in done:
            c = {m for m in R[n] if n in R.get(m, ())} | {n}
            done |= c
            out.append(sorted(c))
    return out


def public(a):
    return [n for n, b in a.p.bodies.items() if b['exported'] or b['reachable'] or n.startswith('<')]


def recursion(a):
    E, asks = graph(a)
    live = reach(E, public(a))
    cs = cycles({n: E[n] & live for n in live})
    a.fns.update(live)
    for c in cs:
        a.ob('no function leads back to itself', False, c[0], 'through ' + ' > '.join(c))
    a.ob('no function leads back to itself', not cs, 'crate', '')
    a.note('%d functions, %d calls between them' % (len(live), sum(len(E[n] & live) for n in live)))
    P = {}
    for n in live:
        m = re.match(r'^<(.*) as grammar::passes::Pass<.*>>::run_pass$', n)
        if m:
            P[m.group(1)] = {q for x in reach(E, [n]) for f in asks[x] for q in asked(a, f)}
    a.ob('the passes are found', len(P) >= 1, 'grammar::passes', str(sorted(P)))
    a.note('passes and what they ask for: %s' % {n.split('::')[-1]: sorted(q.split('::')[-1] for q in s) for n, s in P.items()})
    P = {n: {q for q in s if q in P} for n, s in P.items()}
    cs = cycles(P)
    for c in cs:
        a.ob('no pass asks for itself', False, '<%s as grammar::passes::Pass>::run_pass' % c[0], 'through ' + ' > '.join(c))
    a.ob('no pass asks for itself', not cs, 'grammar::passes', '')


def asked(a, f):
    for i in (f.get('args') or []):
        t = a.p.tys[i] if isinstance(i, int) else None
        if t and t['k'] == 'adt':
            yield t['def']


# ------------------------------------------------------------------ loops
def finite(a, i, depth=0):
    """no part of the iterator type goes on for ever, as far as the type tells"""
    if depth > 12 or not isinstance(i, int):
        return True
    t = a.p.tys[i]
    if t['k'] in ('ref', 'ptr'):
        return finite(a, t['of'], depth + 1)
    if t['k'] == 'adt':
        kids = [j for j in t.get('args', []) if isinstance(j, int)]
        if ENDLESS.search(t['def']):
            return False
        if re.search(r'::Zip$', t['def']):
            return any(finite(a, j, depth + 1) for j in kids)
        if re.search(r'::Take$', t['def']):
            return True
        return all(finite(a, j, depth + 1) for j in kids)
    return True


def callee(t):
    f = t.get('func')
    if isinstance(f, list) and f[0] == 'k' and isinstance(f[1], dict):
        return f[1].get('fndef')
    return None


def asked_next(t):
    f = callee(t) if t['k'] == 'call' else None
    return f if f and f['fn'] in ('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back') else None


def passes(a, b, cfg, L, h):
    """the loop asks one iterator for its next item in every cycle, and is left at the end of it"""
    for x in sorted(L):
        f = asked_next(b['blocks'][x]['t'])
        if f and finite(a, f['args'][0]) \
                and every_cycle(cfg, L, h, x) and left_at_end(b, L, x) and one_iterator(b, L, x):
            return True
    return False


def every_cycle(cfg, L, h, x):
    if x == h:
        return True
    seen, w = {x}, [h]
    while w:
        y = w.pop()
        for s in cfg.succ[y]:
            if s == h:
                return False
            if s in L and s not in seen:
                seen.add(s)
                w.append(s)
    return True


def left_at_end(b, L, x):
    """None leads out of the loop"""
    y, d = b['blocks'][x]['t'].get('t'), b['blocks'][x]['t']['dest']
    test = None
    for _ in range(8):
        if y is None or y not in L:
            return False
        for st in b['blocks'][y]['s']:
            if st[0] == '=' and st[2][0] == 'discr' and st[2][1] == d:
                test = st[1]
            elif st[0] == '=' and st[2][0] == 'use' and st[2][1][0] in 'mc' and st[2][1][1] == d and not st[1][1]:
                d = st[1]
        t = b['blocks'][y]['t']
        if t['k'] == 'goto':
            y = t['t']
        elif t['k'] == 'switch':
            if test is None or t['op'][1] != test:
                return False
            to = dict((v, s) for v, s in t['cases'])
            return to.get(0, t['otherwise']) not in L
        else:
            return False
    return False


def one_iterator(b, L, x):
    """the iterator is not made anew in the loop"""
    o = b['blocks'][x]['t']['args'][0]
    if o[0] not in 'mc':
        return False
    l = o[1][0]
    for _ in range(8):
        defs = [st for y in L for st in b['blocks'][y]['s'] if st[0] == '=' and st[1][0] == l]
        if any(b['blocks'][y]['t']['k'] == 'call' and b['blocks'][y]['t']['dest'][0] == l for y in L):
            return False
        if not defs:
            return True
        if len(defs) > 1 or defs[0][1][1]:
            return False
        r = defs[0][2]
        if r[0] == 'ref':
            l = r[2][0]
        elif r[0] == 'use' and r[1][0] in 'mc':
            l = r[1][1][0]
        else:
            return False
    return False


# ------------------------------------------------------------------ loops the summaries solve
def counter(L):
    """the loop counts towards a bound it leaves alone"""
    for mu, n in zip(L.mus, L.nexts):
        step = stepping(n, mu)
        if not step or L.cont in (0, 1):
            continue
        for w in B.support(L.cont):
            x = B.atom_of[w]
            if x.k != 'le':
                continue
            k0, m = TM.lin_of(x.a[0])
            if mu not in m or any(o in t.fv for t in m if t is not mu for o in L.mus):
                continue
            # it goes on only while  k*mu + rest <= c  (or > c), which the steps end
            holds, fails = B.node(w, 0, 1), NOT(B.node(w, 0, 1))
            if m[mu] * step > 0 and not possible(AND(L.cont, fails)) or m[mu] * step < 0 and not possible(AND(L.cont, holds)):
                return True
    return False


def stepping(n, mu):
    """1 when n is always above mu, -1 when always below, by at least one"""
    signs = set()
    for v, g in branches(n):
        if v.k not in ('lin', 'int') and v is not mu:
            return 0
        k0, m = TM.lin_of(TM.sub(v, mu))
        if any(not (t.k == 'len' or t.k == 'call' and t.a[0] in ('cwx', 'strlen')) for t in m):
            return 0
        if k0 >= 1 and all(c > 0 for c in m.values()):
            signs.add(1)
        elif k0 <= -1 and all(c < 0 for c in m.values()):
            signs.add(-1)
        else:
            return 0
    return signs.pop() if len(signs) == 1 else 0


def growing(a, v, elems, guard, top=True):
    """why v, made from the elements of a growing collection, may be larger than what it was made from; None if it is not"""
    v = strip(v)
    if not isinstance(v, T) or not any(e in v.fv for e in elems):
        return None
    k = v.k
    if k in ('elem', 'sym', 'mu'):
        return None
    if k in ('fld', 'idx', 'get', 'load', 'first', 'proj'):
        return None
    if k == 'agg':
        for x in v.a[2]:
            r = growing(a, x, elems, guard)
            if r:
                return r
        return None
    if k == 'phi':
        for x, g in v.a[0]:
            if AND(guard, g):
                r = growing(a, x, elems, AND(guard, g))
                if r:
                    return r
        return None
    if k in ('bool',):
        return None
    if k == 'lin':
        k0, m = TM.lin_of(v)
        dep = {t: c for t, c in m.items() if any(e in t.fv for e in elems)}
        if len(dep) == 1:
            t, c = next(iter(dep.items()))
            if c == 1 and growing(a, t, elems, guard) is None:
                if k0 <= 0 and len(m) == 1:
                    return None
                # at most a length
                for w in B.support(guard):
                    x = B.atom_of[w]
                    if x.k == 'le':
                        j0, mm = TM.lin_of(x.a[0])
                        if t in mm and any(y.k == 'len' for y in mm if y is not t):
                            hold = B.node(w, 0, 1)
                            if mm[t] > 0 and not possible(AND(guard, NOT(hold))) or mm[t] < 0 and not possible(AND(guard, hold)):
                                return None
        return 'counts on from what is there: %s' % show(v)[:300]
    if k == 'apply' or (k == 'call' and v.a[0] == 'apply'):
        return None
    return 'made anew from what is there: %s' % show(v)[:300]


def added(a, ps, kind, guard=1, elems=(), fs=frozenset()):
    """(guard, value, elements) of everything the rules of a fixed point add, keys only for maps"""
    out = []
    for p in ps:
        if p.k == 'item':
            v = p.a[1]
            if kind == 'map':
                v = proj(v, '()', 0, 0)
            out.append((AND(guard, p.a[0]), v, elems))
        elif p.k == 'for':
            x, src = p.a[0], strip(p.a[1])
            dep = any(f in src.fv for f in fs) or any(e in src.fv for e in elems)
            out += added(a, p.a[3], kind, guard, elems + ((x,) if dep else ()), fs)
        elif p.k == 'nest':
            out.append((AND(guard, p.a[0]), p.a[1], elems))
            inner = p.a[3] if isinstance(p.a[3], tuple) else ()
            out += added(a, inner, 'set', AND(guard, p.a[0]), elems, fs)
        else:
            raise Unsupported('rule of a fixed point: %s' % p.k)
    return out


def universe(a, n, F):
    fs = frozenset(F.Fs)
    for (root, path), (mu, ps) in F.grow.items():
        kind = kind_of(mu) or 'set'
        for g, v, es in added(a, ps, kind, fs=fs):
            v = strip(v)
            if v.k == 'agg' and v.a[0] == ear.ES:
                v = c03.Items(a).key(v)
            why = growing(a, v, es, g)
            a.ob('what the rounds add is made of the parts of the inputs', why is None, n, why or '')


def ranked(a, n):
    """is every loop of the function's summary a pass over a collection, a counter, or a fixed point"""
    why = ''
    for c in (None, RC.CONTRACTS, SETC):
        if n in (c or {}):
            continue
        try:
            S = a.S(n, c)
        except (Unsupported, Missing) as e:
            why = str(e)
            continue
        open_ = [L for L in S.loops if not getattr(L, 'fold', False) and not getattr(L, 'frozen', False) and not counter(L)]
        if not open_:
            return S, ''
        why = '; '.join('%s repeats while %s' % (' > '.join(L.stack[-2:]) or n, show_bdd(L.cont)[:200]) for L in open_)
    return None, why


SETC = dict(ear.SETS, **ear.TREES)


def loops(a):
    E, _ = graph(a)
    live = reach(E, public(a))
    nfor = nfix = 0
    for n in sorted(live):
        if '::{closure' in n:
            continue
        b = a.p.bodies[n]
        if n in DRIVERS:
            continue
        own = [x for x in live if x == n or x.startswith(n + '::{closure')]
        hard, k = [], 0
        for x in own:
            cfg = mir.CFG(a.p.bodies[x])
            if getattr(cfg, 'irreducible', False):
                a.ob('loops have one entry', False, x, '')
            for h, L in cfg.loops.items():
                k += 1
                for y in sorted(L):
                    f = asked_next(a.p.bodies[x]['blocks'][y]['t'])
                    if f and not finite(a, f['args'][0]):
                        a.ob('no iterator that goes on for ever is gone through', False, x, a.p.bodies[x]['blocks'][y]['at'])
                if not passes(a, a.p.bodies[x], cfg, L, h):
                    hard.append((x, h))
        nfor += k - len(hard)
        drive = sorted({y for x in own for y in E[x] if y in DRIVERS})
        if not k and not drive:
            continue
        a.fns.update(own)
        if k > len(hard):
            a.ob('every loop ends', True, n, '')
        if not hard and not drive:
            continue
        S, why = ranked(a, n)
        nfix += len(hard) + len(drive)
        if a.ob('every loop ends', S is not None, n, 'a loop that is neither a pass over a finite collection nor repeated only after something new was added: ' + why + ''.join(' (%s block %d)' % x for x in hard)):
            for L in S.flog:
                if L.solved:
                    universe(a, n, L.fixed)
    a.note('%d loops over finite iterators, %d other loops' % (nfor, nfix))
    # iterators that go on for ever are not gone through
    for n in sorted(live):
        out = []
        refs(a.p.bodies[n]['blocks'], out)
        for f in out:
            if f['fn'].split('::')[-1] in THROUGH and (f.get('trait') or '').endswith(('Iterator', 'Extend', 'FromIterator')):
                a.sites += 1
                bad = [i for i in f.get('args') or [] if isinstance(i, int) and not finite(a, i)]
                if bad:
                    a.ob('no iterator that goes on for ever is gone through', False, n, '%s of %s' % (f['fn'], a.p.tys[bad[0]].get('def')))
    a.ob('no iterator that goes on for ever is gone through', True, 'crate', '')
    own = [n for n in live if re.match(r'^<.* as std::iter::(Iterator|DoubleEndedIterator)>::', n)]
    a.ob('iterators are those of the standard library', not own, own[0] if own else 'crate', 'an iterator of its own may go on for ever')


# ------------------------------------------------------------------ reports of change
class Part:
    """the obligations of another property that termination rests on, one-sided where one side suffices"""

    def __init__(self, a, keep):
        self.__dict__.update(_a=a, _keep=keep)

    def __getattr__(self, n):
        return getattr(self._a, n)

    def __setattr__(self, n, v):
        setattr(self._a, n, v)

    def side(self, rule):
        for r, s in self._keep.items():
            if rule.startswith(r):
                return s
        return None

    def iff(self, rule, fn, got, want, cond=1):
        s = self.side(rule)
        if s == 'only':             # reported only when
            return self._a.never(rule + ' (never otherwise)', fn, AND(cond, AND(got, NOT(want))), 'reported when %s\n  true when %s' % (show_bdd(got)[:600], show_bdd(want)[:600]))
        if s == 'all':              # holds at least
            return self._a.never(rule + ' (all of it)', fn, AND(cond, AND(want, NOT(got))), 'found    %s\n  required %s' % (show_bdd(got)[:600], show_bdd(want)[:600]))
        if s == 'both':
            return self._a.iff(rule, fn, got, want, cond)

    def same(self, rule, fn, got, want, cond=1, w=1200):
        if self.side(rule):
            return self._a.same(rule, fn, got, want, cond, w)

    def ob(self, rule, ok, fn, detail='', key=None):
        if self.side(rule):
            return self._a.ob(rule, ok, fn, detail, key)
        return bool(ok)

    def never(self, rule, fn, g, detail=''):
        if self.side(rule):
            return self._a.never(rule, fn, g, detail)

    def no_panic(self, *x, **k):
        return True


def reports(a):
    P = Part(a, {'a report is made from its flag': 'only', 'combined report': 'only', 'reports whether any visit': 'only', 'visits every item': 'both',
                 'repeats rounds in one loop': 'both', 'repeats exactly until': 'only', 'each round calls': 'both',
                 'reports a change exactly when': 'only', 'adds exactly': 'all'})
    for f in (c22.reports, c22.iter_, c22.loop_, c22.collect):
        f(P)


def tree_reports(a):
    P = Part(a, {'adding an alternative reports': 'only', 'merging nodes reports': 'only'})
    c15.reports(P)


def sharing(a):
    """alternatives come from a finite universe of contents only if equal contents share one alternative"""
    P = Part(a, {'equal contents give the same alternative': 'both', 'the content of an alternative given again': 'both'})
    c15.interning(P)
    c15.kept(P)


def item_reports(a):
    P = Part(a, {'insertion reports a change': 'only', 'the nodes of other items stay': 'both', 'the nodes of an item stay': 'both'})
    c04.merging(P)


RULES = [('recursion', recursion), ('loops', loops), ('reports of change', reports), ('reports of the tree', tree_reports), ('sharing of alternatives', sharing), ('reports of item sets', item_reports)]
