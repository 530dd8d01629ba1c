"""Value-flow summaries of MIR bodies.

Each body is evaluated once as a gated value graph: every local holds a term over the
function's inputs, control-flow joins merge terms under guards, calls are inlined or
replaced by models, and loops are replaced by closed forms (collections built piece by
piece, flags, counters, searches) or, failing that, by explicit recurrences."""
import re
import json
from terms import *
import terms as TM
import words

INTS = {'isize', 'usize', 'i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i128', 'u128'}
UINTS = {x for x in INTS if x[0] == 'u'}
VECT = {'std::vec::Vec', 'std::collections::VecDeque', 'im::Vector', 'std::collections::BinaryHeap', 'std::collections::LinkedList'}
SETT = {'std::collections::BTreeSet', 'std::collections::HashSet', 'im::OrdSet', 'im::HashSet'}
MAPT = {'std::collections::BTreeMap', 'std::collections::HashMap', 'im::OrdMap', 'im::HashMap'}
BOXT = {'std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc', 'std::ptr::Unique', 'std::ptr::NonNull',
        'std::mem::ManuallyDrop', 'std::mem::MaybeUninit', 'std::borrow::Cow', 'std::pin::Pin'}
CELLS = {'std::cell::RefCell', 'std::sync::RwLock', 'std::sync::Mutex', 'std::cell::Cell'}


class Unsupported(Exception):
    pass


NVAR['fmtbuilder'] = ['fmtbuilder']
PAIRS = set()       # enums of two variants without content


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.tys = d['tys']
        self.bodies = {b['name']: b for b in d['bodies']}
        self.impls = d['impls']
        self.trait_impls = {}
        for n, b in self.bodies.items():
            if b.get('trait'):
                self.trait_impls.setdefault((b['trait'], n.split('::')[-1]), []).append(n)
        self.adts = {a: v for a, v in d['adts']}
        for a, v in self.adts.items():
            NVAR[a] = [x['name'] for x in v['variants']]
            if len(v['variants']) == 2 and not any(x['fields'] for x in v['variants']):
                PAIRS.add(a)
            if all(x['discr'] == i for i, x in enumerate(v['variants'])):
                TM.PLAIN[a] = len(v['variants'])
                if 1 < len(v['variants']) <= 4 and not any(x['fields'] for x in v['variants']):
                    TM.BARE.add(a)
            ADT[a] = {'kind': v['kind'], 'variants': [[f['name'] for f in x['fields']] for x in v['variants']], 'local': v['local']}
        self._ty = {}
        self.fnref = {}
        self.cfgs = {}

    def discr(self, adt, val):
        a = self.adts.get(adt)
        if a is None:
            if adt == ORD:
                return {255: 0, -1: 0, 0: 1, 1: 2}.get(val)
            return val
        for i, v in enumerate(a['variants']):
            if v['discr'] == val or (isinstance(v['discr'], int) and v['discr'] < 0 and any((v['discr'] % (1 << n)) == val for n in (8, 16, 32, 64, 128))):
                return i
        return val if val < len(a['variants']) else None

    def ty(self, i, env):
        """resolved type: nested tuples"""
        if not env:
            r = self._ty.get(i)
            if r is not None:
                return r
        t = self.tys[i]
        k = t['k']
        f = lambda j: self.ty(j, env)
        if k == 'adt':
            r = ('adt', t['def'], tuple(f(x) for x in t['args']))
        elif k == 'ref':
            r = ('ref', t['mut'], f(t['of']))
        elif k == 'ptr':
            r = ('ptr', f(t['of']))
        elif k == 'param':
            r = env.get(t['name'], ('param', t['name']))
        elif k == 'tuple':
            r = ('tuple', tuple(f(x) for x in t['of']))
        elif k == 'closure':
            r = ('closure', t['def'], t.get('ckind'))
        elif k == 'fndef':
            r = ('fndef', t['def'], tuple(f(x) for x in t['args']))
        elif k in ('slice', 'array'):
            r = (k, f(t['of']))
        elif k == 'never':
            r = ('never',)
        else:
            r = (k, t.get('str', ''))
        if not env:
            self._ty[i] = r
        return r

    def cfg(self, name):
        c = self.cfgs.get(name)
        if c is None:
            c = self.cfgs[name] = CFG(self.bodies[name])
        return c


def succs(t):
    k = t['k']
    if k in ('goto', 'drop'):
        return [t['t']]
    if k == 'switch':
        return [b for _, b in t['cases']] + [t['otherwise']]
    if k in ('call', 'assert'):
        return [t['t']] if t['t'] is not None else []
    return []


class CFG:
    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        self.succ = [[s for s in dict.fromkeys(succs(b['t'])) if s is not None and not bl[s]['cleanup']] for b in bl]
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(n)
                stack.pop()
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        dom = {b: set(self.rpo) for b in self.rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                n = set.intersection(*[dom[p] for p in self.pred[b]]) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.dom = dom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in dom[b]:
                    L = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in L:
                            L.add(x)
                            w.extend(self.pred[x])
                elif self.pos[s] <= self.pos[b]:
                    self.irreducible = True
        # a round that panics is a round of the loop
        dead = set()
        for b in reversed(self.rpo):
            if all(s in dead for s in self.succ[b]) and body['blocks'][b]['t']['k'] == 'call' and (self.succ[b] or body['blocks'][b]['t']['t'] is None):
                dead.add(b)
            elif self.succ[b] and all(s in dead for s in self.succ[b]):
                dead.add(b)
        for h in sorted(self.loops, key=lambda h: self.pos[h]):
            L = self.loops[h]
            for b in self.rpo:
                if b in dead and b not in L and all(p in L for p in self.pred[b]):
                    L.add(b)


    def around(self, h, L, n):
        """is there a round of the loop at h that does not come by n?"""
        seen, todo = set(), [h]
        while todo:
            b = todo.pop()
            for s in self.succ[b]:
                if s == h:
                    return True
                if s in L and s != n and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False

    def may_end(self, h, L, n):
        """can the loop at h be left before n?"""
        seen, todo = {h}, [h]
        while todo:
            for s in self.succ[todo.pop()]:
                if s not in L:
                    return True
                if s != n and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False

    def with_exits(self, h, after):
        """the loop at h together with the blocks that only its iterations lead to; after: the block that gets the next item"""
        L = self.loops[h]
        b = after
        seen = set()
        while b in L and b not in seen:
            seen.add(b)
            ss = self.succ[b]
            ins = [s for s in ss if s in L]
            if len(ins) != 1:
                return L
            if len(ss) > 1 and any(s not in L for s in ss):
                ts = [s for s in ss if s not in L]
                live = [s for s in ts if self.body['blocks'][s]['t']['k'] != 'unreachable']
                if not live:
                    return L
                return L | {x for x in self.rpo if ins[0] in self.dom[x]}
            if len(ss) == 2 and all(s in L for s in ss):
                return L
            b = ins[0]
        return L


def unescape(s):
    """the text of a literal as the compiler prints it"""
    one = {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}
    return re.sub(r'\\(?:u\{([0-9a-fA-F_]+)\}|x([0-9a-fA-F]{2})|(.))', lambda m: chr(int((m.group(1) or m.group(2)).replace('_', ''), 16)) if m.group(3) is None else one.get(m.group(3), m.group(3)), s, flags=re.S)


class Fr:
    __slots__ = ('body', 'fid', 'env', 'g', 'cfg', 'name')


POISON = 0
_muc = [0]


def fresh_mu():
    _muc[0] += 1
    return mk('mu', 'raw', _muc[0])


def root_default(r):
    k = r[0]
    if k == 'P':
        return r[1]
    if k == 'E':
        return r[1]
    if k == 'C':
        return cell_content(r[1])
    if k == 'TR':
        return EMPTYC('vec')
    return None


def cell_content(c):
    c = strip(c)
    if c.k == 'agg' and c.a[0] in CELLS:
        return c.a[2][0]
    if c.k == 'phi':
        return phi([(cell_content(v), g) for v, g in c.a[0]])
    return mk('cell', c)


def mget(mem, r):
    v = mem.get(r)
    if v is None:
        v = root_default(r)
    return v


def merge(states):
    states = [(g, m) for g, m in states if g != 0]
    if not states:
        return 0, None
    if len(states) == 1:
        return states[0]
    G = OR(*[g for g, _ in states])
    cs = [(B.constrain(g, G), m) for g, m in states]
    m0 = cs[0][1]
    if all(m is m0 for _, m in cs):
        return G, m0
    roots = {}
    for _, m in cs:
        for r in m:
            roots[r] = None
    out = {}
    for r in roots:
        vs = [(mget(m, r), g) for g, m in cs]
        v0 = vs[0][0]
        if all(v is v0 for v, _ in vs):
            if v0 is not None:
                out[r] = v0
        else:
            v = phi([(v, g) for v, g in vs if v is not None])
            if v is not BOT:
                out[r] = v
    return G, out


def is_refish(ty):
    return ty[0] in ('ref', 'ptr') or (ty[0] == 'adt' and ty[1] in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc'))


def mark(v, ty):
    """attach type facts to an opaque value"""
    k = ty[0]
    while k == 'ref' or (k == 'adt' and ty[1] in BOXT and ty[2]):
        if k == 'ref' and ty[1]:
            return v
        ty = ty[2] if k == 'ref' else ty[2][0]
        k = ty[0]
    if k == 'other':
        if ty[1] == 'bool':
            if v.k != 'bool' and v is not BOT and v.k != 'ref':
                return BOOL(truth(v))
        elif ty[1] in UINTS:
            if v.k == 'phi':
                for w, _ in v.a[0]:
                    if w.k not in ('int', 'lin'):
                        UNSIGNED.add(w)
            elif v.k not in ('int', 'lin'):
                UNSIGNED.add(strip(v))
    elif k == 'adt':
        if ty[1] in VECT:
            mark_kind(v, 'vec')
        elif ty[1] in SETT:
            mark_kind(v, 'set')
        elif ty[1] in MAPT:
            mark_kind(v, 'map')
    elif k in ('slice', 'array'):
        mark_kind(v, 'vec')
    return v


def rread(v, path):
    for i, p in enumerate(path):
        if v is None:
            return BOT
        if p[0] == 'f':
            v = proj(v, p[1], p[2], p[3])
        elif p[0] == 'key':
            v = load(v, p[1])
        elif p[0] == 'ix':
            v = index(v, p[1])
        elif p[0] == 'it':
            v = phi([(w.a[1] if w.k == 'it' else BOT, g) for w, g in branches(v)])
        else:
            v = mk('part', v, p[1])
    return v


def rwrite(v, path, new):
    if not path:
        return new
    p = path[0]
    if v is None:
        v = mk('uninit')
    if p[0] == 'f':
        return upd(v, p[1], p[2], p[3], p[4], rwrite(proj(v, p[1], p[2], p[3]), path[1:], new))
    if p[0] == 'key':
        inner = rwrite(load(v, p[1]), path[1:], new) if len(path) > 1 else new
        return mapset(v, p[1], inner)
    if p[0] == 'ix':
        inner = rwrite(index(v, p[1]), path[1:], new) if len(path) > 1 else new
        return setix(v, p[1], inner)
    if p[0] == 'it':
        return mk('it', 'src', rwrite(v.a[1], path[1:], new))
    return mk('setpart', v, p[1], rwrite(mk('part', v, p[1]), path[1:], new))


def setix(v, i, new):
    v, i = strip(v), strip(i)
    if v.k == 'phi':
        return phi([(setix(w, i, restrict(new, g)), g) for w, g in v.a[0]])
    if v.k == 'setix' and v.a[1] is i:
        v = v.a[0]
    return mk('setix', v, i, strip(new))


class Ctx:
    """mutable state of one straight-line evaluation"""
    __slots__ = ('mem', 'surv')

    def __init__(self, mem):
        self.mem = mem
        self.surv = 1


def unify(pat, t, s):
    """does the type t have the shape pat?  parameters of pat are bound in s"""
    if pat[0] == 'param':
        if pat[1] in s:
            return s[pat[1]] == t
        s[pat[1]] = t
        return True
    if pat[0] != t[0] or len(pat) != len(t):
        return False
    for x, y in zip(pat[1:], t[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x and isinstance(x[0], str):
                if not unify(x, y, s):
                    return False
            elif len(x) != len(y) or not all(unify(u, v, s) for u, v in zip(x, y)):
                return False
        elif x != y:
            return False
    return True


class Machine:
    def __init__(self, prog, contracts=None):
        self.p = prog
        self.depth = 0
        self.stack = []
        self.panics = []
        self.gst = []
        self.unknown = {}
        self.active = []
        self.contracts = contracts or {}
        self.opened = set()
        self.notes = []
        self.opaque = set()
        self.calls = []
        self.facts = 1
        self.blocks_done = 0
        self.fns_done = {}
        self.loops = []
        self.keyleaf = None

    # ---------------------------------------------------------- panics
    def panic(self, c, g, what):
        """execution ends here under g"""
        if g == 0:
            return
        g = AND(g, self.facts)
        full = AND(g, *self.gst)
        if full:
            q = Panic((full, what, self.stack[-1][0] if self.stack else '', list(self.stack)))
            q.mem = {r: v for r, v in (c.mem or {}).items() if r[0] in ('C', 'P')}
            self.panics.append(q)
        c.surv = AND(c.surv, NOT(g))

    # ---------------------------------------------------------- places
    def locate(self, fr, c, place, addr=False):
        """-> (alts [(kind, x, path, guard)], ty); kind 'm' (root) or 'v' (value)"""
        l, prs = place
        body = fr.body
        ty = self.p.ty(body['locals'][l]['ty'], fr.env)
        alts = [('m', ('L', fr.fid, l), (), 1)]
        var = 0
        for e in prs:
            if e == '*':
                new = []
                if ty[0] == 'ref' and not ty[1]:
                    for k, x, path, g in alts:
                        v = self.rd(c, (k, x, path))
                        if v.k == 'addr':
                            v = v.a[0]
                        new.append(('v', v, (), g))
                    ty = ty[2]
                elif ty[0] in ('ref', 'ptr'):
                    for k, x, path, g in alts:
                        v = self.rd(c, (k, x, path))
                        for w, h in (v.a[0] if v.k == 'phi' else [(v, 1)]):
                            gg = AND(g, h)
                            if gg == 0:
                                continue
                            if w.k == 'ref':
                                new.append(('m', w.a[0], w.a[1], gg))
                            elif ty[0] == 'ptr' and w.k in ('agg', 'coll', 'addr'):
                                new.append(('v', strip(w), (), gg))
                            else:
                                new.append(('m', ('P', strip(w)), (), gg))
                    ty = ty[2] if ty[0] == 'ref' else ty[1]
                else:  # Box
                    new = alts
                    ty = ty[2][0] if ty[0] == 'adt' and ty[2] else ('other', '?')
                alts = new
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'f':
                fty = self.p.ty(e[2], fr.env)
                if ty[0] == 'adt' and ty[1] in BOXT and ty[1] != 'std::borrow::Cow':
                    ty = fty
                    var = 0
                    continue
                if ty[0] == 'tuple':
                    el = ('f', '()', 0, e[1], len(ty[1]))
                elif ty[0] == 'closure':
                    n = len(self.p.bodies[ty[1]]['upvars']) if ty[1] in self.p.bodies else e[1] + 1
                    el = ('f', 'closure', 0, e[1], n)
                elif ty[0] == 'adt':
                    ad = ADT.get(ty[1])
                    n = len(ad['variants'][var]) if ad and var < len(ad['variants']) else e[1] + 1
                    el = ('f', ty[1], var, e[1], n)
                else:
                    el = ('f', '?', var, e[1], e[1] + 1)
                alts = [(k, x, path + (el,), g) for k, x, path, g in alts]
                ty = fty
                var = 0
            elif e[0] in ('i', 'ci'):
                if e[0] == 'i':
                    iv = self.rd(c, ('m', ('L', fr.fid, e[1]), ()))
                    alts = [(k, x, path + (('ix', iv),), g) for k, x, path, g in alts]
                else:
                    na = []
                    for k, x, path, g in alts:
                        if e[2]:
                            iv = TM.sub(length(self.rd(c, (k, x, path))), INT(e[1]))
                        else:
                            iv = INT(e[1])
                        na.append((k, x, path + (('ix', iv),), g))
                    alts = na
                ty = ty[1] if ty[0] in ('slice', 'array') else ('other', '?')
            elif e[0] == 'ss':
                na = []
                for k, x, path, g in alts:
                    v = self.rd(c, (k, x, path))
                    v = skipc(v, INT(e[1]))
                    if (e[3] and e[2]) or not e[3]:
                        v = mk('call', 'slice_to', (v, INT(e[2]), BOOL(1 if e[3] else 0)))
                    na.append(('v', v, (), g))
                alts = na
            else:
                raise Unsupported('projection %r' % (e,))
        return alts, ty

    def rd(self, c, alt):
        k, x, path = alt[:3]
        if k == 'm':
            v = mget(c.mem, x)
            if v is None:
                return BOT
        else:
            v = x
        return rread(v, path)

    def read_alts(self, c, alts):
        if len(alts) == 1:
            return self.rd(c, alts[0])
        return phi([(self.rd(c, a), a[3]) for a in alts])

    def read(self, fr, c, place):
        alts, ty = self.locate(fr, c, place)
        v = self.read_alts(c, alts)
        return mark(v, ty), ty

    def write_root(self, c, root, path, val):
        m = dict(c.mem)
        m[root] = rwrite(mget(c.mem, root), path, val) if path else val
        c.mem = m

    def write_alts(self, c, alts, val):
        if len(alts) == 1:
            a = alts[0]
            if a[0] == 'm':
                self.write_root(c, a[1], a[2], val)
            return
        for k, x, path, g in alts:
            if k == 'm':
                old = self.rd(c, (k, x, path))
                self.write_root(c, x, path, phi([(restrict(val, g), g), (old, NOT(g))]))

    # references held in values
    def refalts(self, v):
        out = []
        for w, g in (v.a[0] if v.k == 'phi' else [(v, 1)]):
            if w.k == 'ref':
                out.append(('m', w.a[0], w.a[1], g))
            else:
                out.append(('m', ('P', strip(w)), (), g))
        return out

    def deref(self, c, v):
        """content behind a `&mut`-typed value (or the value itself)"""
        if v.k == 'ref' or (v.k == 'phi' and any(w.k == 'ref' for w, _ in v.a[0])):
            return self.read_alts(c, self.refalts(v))
        if v.k == 'addr':
            return self.deref(c, v.a[0])
        r = ('P', strip(v))
        if r in c.mem:
            return c.mem[r]
        return v

    def val(self, c, v):
        """content behind any number of references"""
        n = 0
        while n < 8:
            w = self.deref(c, v)
            if w is v:
                return v
            v = w
            n += 1
        return v

    def store(self, c, ref, val):
        self.write_alts(c, self.refalts(ref), val)

    # ---------------------------------------------------------- operands and rvalues
    def operand(self, fr, c, o):
        if o[0] == 'k':
            return self.const(fr, c, o[1])
        v, ty = self.read(fr, c, o[1])
        return restrict(v, fr.g)

    def const(self, fr, c, k):
        if 'promoted' in k:
            v = self.promoted(k['promoted'], fr.env)
            ty = self.p.ty(k['ty'], fr.env)
            return v
        ty = self.p.ty(k['ty'], fr.env)
        if 'fndef' in k:
            return self.fnval(k['fndef'], fr.env)
        if ty == ('other', 'bool') and 'int' in k:
            return TRUE if k['int'] else FALSE
        if 'int' in k and not (ty[0] == 'adt'):
            n = k['int']
            if ty[0] == 'other' and ty[1] in INTS and ty[1][0] == 'i' and n >= 1 << 63:
                n -= 1 << 64
            return INT(n)
        s = k.get('named') or k.get('str')
        if ty == ('tuple', ()):
            return UNIT
        if s is not None and ty[0] == 'ref' and isinstance(s, str) and s[:1] in '"b' and s[-1:] == '"':
            return STR(unescape(s[1:-1]) if s[0] == '"' else s)
        if ty[0] == 'adt' and ty[1] == 'std::marker::PhantomData':
            return AGG(ty[1], 0, ())
        if ty[0] == 'adt' and ADT.get(ty[1]) and len(ADT[ty[1]]['variants']) == 1 and not ADT[ty[1]]['variants'][0]:
            return AGG(ty[1], 0, ())
        if ty[0] == 'closure':
            return mk('agg', 'closure', ty[1], ())
        if k.get('named') and k['named'] in self.p.bodies:
            return self.promoted(k['named'], fr.env)
        if ty[0] == 'adt' and isinstance(s, str):
            for i, n in enumerate(NVAR.get(ty[1], [])):
                if s.split('::')[-1] == n and not ADT[ty[1]]['variants'][i]:
                    return AGG(ty[1], i, ())
        return mk('const', str(s))

    def promoted(self, name, env):
        b = self.p.bodies.get(name)
        if b is None:
            return mk('const', name)
        v, mem, surv = self.run_body(name, [], {}, env)
        # promoteds evaluate to a reference to their value
        return v

    def fnval(self, fd, env):
        args = tuple(self.p.ty(a, env) for a in fd['args'])
        name = fd.get('res') or fd['fn']
        if fd.get('ctor'):
            t = mk('fn', fd['fn'], ())
        else:
            t = mk('fn', fd['fn'], args)
        self.p.fnref[t] = (fd, args, env)
        return t

    def rvalue(self, fr, c, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, c, rv[1])
        if k == 'ref':
            alts, ty = self.locate(fr, c, rv[2])
            if rv[1]:
                return phi([(mk('ref', x, path) if kk == 'm' else x, g) for kk, x, path, g in alts])
            v = mark(self.read_alts(c, alts), ty)
            v = restrict(v, fr.g)
            if is_refish(ty) and v.k != 'ref':
                return mk('addr', v)
            return v
        if k == 'addr':
            alts, ty = self.locate(fr, c, rv[-1] if isinstance(rv[-1], list) else rv[1])
            return phi([(mk('ref', x, path) if kk == 'm' else x, g) for kk, x, path, g in alts])
        if k == 'cast':
            v = self.operand(fr, c, rv[2])
            ty = self.p.ty(rv[3], fr.env)
            kind = str(rv[1])
            if kind.startswith('IntToInt'):
                if v.k == 'discr' or (ty[0] == 'other' and ty[1] in INTS):
                    src = self.opty(fr, rv[2])
                    if src[0] == 'other' and src[1] in INTS:
                        return v
                    return TM.call('cast:' + ty[1], (v,))
                return TM.call('cast:' + str(ty[1]), (v,))
            return v
        if k == 'bin':
            return self.binop(fr, c, rv[1], rv[2], rv[3])
        if k == 'un':
            v = self.operand(fr, c, rv[2])
            if rv[1] == 'Not':
                ty = self.opty(fr, rv[2])
                if ty == ('other', 'bool'):
                    return BOOL(NOT(truth(v)))
                return TM.call('!', (v,))
            if rv[1] == 'Neg':
                return scale(v, -1)
            if rv[1] == 'PtrMetadata':
                return length(self.val(c, v))
            return TM.call('un:' + str(rv[1]), (v,))
        if k == 'discr':
            alts, ty = self.locate(fr, c, rv[1])
            v = restrict(self.read_alts(c, alts), fr.g)
            return mk('discr', strip(v), ty[1] if ty[0] == 'adt' else '?')
        if k == 'repeat':
            v = self.operand(fr, c, rv[1])
            return TM.call('repeat', (v, mk('const', str(rv[2:]))))
        if k == 'len':
            alts, ty = self.locate(fr, c, rv[1])
            return length(self.read_alts(c, alts))
        if k == 'agg':
            ak = rv[1]
            ops = [self.operand(fr, c, o) for o in rv[2]]
            if ak[0] == 'tuple':
                return TUP(*[self.keepref(o) for o in ops]) if not any(has_ref(o) for o in ops) else mk('agg', '()', 0, tuple(strip(o) for o in ops))
            if ak[0] == 'array':
                return coll('vec', None, items(*ops))
            if ak[0] == 'closure':
                return mk('agg', 'closure', ak[1], tuple(ops))
            if ak[0] == 'adt':
                if ak[1] in BOXT and len(ops) == 1:
                    return ops[0]
                return AGG(ak[1], ak[2], tuple(ops))
            return mk('agg', str(ak), 0, tuple(ops))
        raise Unsupported('rvalue %r' % (rv,))

    def keepref(self, o):
        return o

    def opty(self, fr, o):
        if o[0] == 'k':
            return self.p.ty(o[1]['ty'], fr.env)
        c = Ctx({})
        l, prs = o[1]
        ty = self.p.ty(fr.body['locals'][l]['ty'], fr.env)
        for e in prs:
            if e == '*':
                if ty[0] == 'ref':
                    ty = ty[2]
                elif ty[0] == 'ptr':
                    ty = ty[1]
                elif ty[0] == 'adt' and ty[2]:
                    ty = ty[2][0]
            elif e[0] == 'f':
                ty = self.p.ty(e[2], fr.env)
            elif e[0] in ('i', 'ci'):
                ty = ty[1] if ty[0] in ('slice', 'array') else ('other', '?')
        return ty

    def binop(self, fr, c, op, a, b):
        ty = self.opty(fr, a)
        x, y = self.operand(fr, c, a), self.operand(fr, c, b)
        isint = ty[0] == 'other' and ty[1] in INTS
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        ov = FALSE
        if x.k == 'discr' or y.k == 'discr':
            r = self.discr_eq(x, y)
            if r is not None:
                return BOOL(r if base == 'Eq' else NOT(r))
        if base == 'Add':
            r = TM.add(x, y)
            if ty[1] in UINTS:
                mark(r, ty)
        elif base == 'Sub':
            r = TM.sub(x, y)
            if ty[0] == 'other' and ty[1] in UINTS:
                ov = BOOL(lt(x, y))
                mark(r, ty)
        elif base == 'Mul':
            r = mul(x, y)
        elif base in ('Eq', 'Ne'):
            if ty[0] == 'ptr' or ty[0] == 'ref':
                e = TM.ptr_eq(x, y)
            else:
                e = ieq(x, y) if isint else TM.eq(x, y)
            r = BOOL(e if base == 'Eq' else NOT(e))
        elif base in ('Lt', 'Le', 'Gt', 'Ge'):
            f = lt if base in ('Lt', 'Gt') else le
            if not isint:
                if ty[0] == 'ptr':
                    x, y = mk('pt', strip(x)), mk('pt', strip(y))
                if base in ('Lt', 'Gt'):
                    f = TM.glt
                else:
                    f = lambda p, q: NOT(TM.glt(q, p))
            r = BOOL(f(x, y) if base in ('Lt', 'Le') else f(y, x))
        elif base in ('BitAnd', 'BitOr', 'BitXor') and ty == ('other', 'bool'):
            p, q = truth(x), truth(y)
            r = BOOL(AND(p, q) if base == 'BitAnd' else OR(p, q) if base == 'BitOr' else OR(AND(p, NOT(q)), AND(q, NOT(p))))
        else:
            r = TM.call('op:' + base, (x, y))
            mark(r, ty)
        if 'WithOverflow' in op:
            return TUP(r, ov)
        return r

    def discr_eq(self, x, y):
        if y.k == 'discr' and x.k != 'discr':
            x, y = y, x
        if y.k == 'int':
            i = self.p.discr(x.a[1], y.a[0])
            if i is not None:
                return is_variant(x.a[0], x.a[1], i)
        if y.k == 'discr':
            n = len(NVAR.get(x.a[1], []))
            if n:
                return OR(*[AND(is_variant(x.a[0], x.a[1], i), is_variant(y.a[0], y.a[1], i)) for i in range(n)])
        return None

    # ---------------------------------------------------------- bodies
    def run_body(self, name, args, mem, env):
        """-> (value, mem, surviving guard)"""
        body = self.p.bodies[name]
        if len(self.stack) > 60 or sum(1 for s in self.stack if s[0] == name) >= 2:
            self.notes.append('recursion: ' + name)
            return TM.call(name, tuple(args)), mem, 1
        fr = Fr()
        fr.body, fr.env, fr.g, fr.name = body, env, 1, name
        fr.cfg = self.p.cfg(name)
        self.depth += 1
        fr.fid = self.depth
        self.stack.append((name,))
        self.fns_done[name] = self.fns_done.get(name, 0) + 1
        try:
            m = dict(mem)
            for i, a in enumerate(args):
                m[('L', fr.fid, i + 1)] = a
            exits = self.region(fr, 0, None, m, None)
            rets = [(g, mm) for t, g, mm in exits if t == 'ret']
            G, mm = merge(rets)
            if G == 0:
                return BOT, mem, 0
            v = mm.get(('L', fr.fid, 0), UNIT)
            v = mark(v, self.p.ty(body['locals'][0]['ty'], env))
            mm = {r: x for r, x in mm.items() if not (r[0] == 'L' and r[1] >= fr.fid)}
            return v, mm, G
        finally:
            self.depth -= 1
            self.stack.pop()

    def region(self, fr, entry, blocks, mem, header, entry_mem_hook=None, start=None):
        """evaluate the blocks from entry; leaves through 'blocks' or back to header.
        -> exits [(target, guard, mem)], guards relative to the entry"""
        cfg = fr.cfg
        inc = {}
        exits = []
        saved_g = fr.g

        def route(t, g, m):
            if g == 0 or m is None:
                return
            if t == 'ret' or t == header or (blocks is not None and t not in blocks):
                exits.append((t, g, m))
            else:
                inc.setdefault(t, []).append((g, m))
        done = set()
        if start is not None:
            for t, g, m in start:
                route(t, g, m)
        else:
            inc[entry] = [(1, mem)]
        for b in cfg.rpo:
            if b not in inc or b in done:
                continue
            if b == header and start is not None:
                continue
            G, m = merge(inc.pop(b))
            if G == 0:
                continue
            if b in cfg.loops and b != header and (fr.fid, b) not in self.opened:
                L = cfg.loops[b]
                done |= L
                self.gst.append(G)
                fr.g = 1
                try:
                    ex = self.loop(fr, b, L, m)
                finally:
                    self.gst.pop()
                for t, g, mm in ex:
                    route(t, AND(G, g), mm)
                continue
            done.add(b)
            for t, g, mm in self.block(fr, b, G, m):
                route(t, g, mm)
        fr.g = saved_g
        return exits

    def block(self, fr, b, G, mem, stop_before_term=False):
        c = Ctx(mem)
        fr.g = G
        bl = fr.body['blocks'][b]
        self.blocks_done += 1
        for s in bl['s']:
            self.stmt(fr, c, s)
        if stop_before_term:
            return c
        return self.term(fr, c, bl['t'], G)

    def stmt(self, fr, c, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(fr, c, s[2], None)
            alts, ty = self.locate(fr, c, s[1])
            self.write_alts(c, alts, v)
        elif k == 'dead':
            r = ('L', fr.fid, s[1])
            if r in c.mem:
                c.mem = dict(c.mem)
                del c.mem[r]
        elif k == 'sd':
            alts, ty = self.locate(fr, c, s[1])
            raise Unsupported('set discriminant')

    def term(self, fr, c, t, G):
        k = t['k']
        if k == 'goto':
            return [(t['t'], G, c.mem)]
        if k == 'drop':
            return [(t['t'], G, c.mem)]
        if k == 'return':
            return [('ret', G, c.mem)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'assert':
            v = self.operand(fr, c, t['cond'])
            ok = truth(v) if t['expected'] else NOT(truth(v))
            self.gst.append(G)
            self.panic(c, B.constrain(NOT(ok), G) if ok != 1 else 0, 'assert ' + str(t['msg'])[:60])
            self.gst.pop()
            g = AND(G, c.surv)
            return [(t['t'], g, c.mem)] if g else []
        if k == 'switch':
            v = self.operand(fr, c, t['op'])
            out = []
            rest = G
            ty = self.opty(fr, t['op'])
            for val, bb in t['cases']:
                if v.k == 'discr':
                    i = self.p.discr(v.a[1], val)
                    g = is_variant(v.a[0], v.a[1], i) if i is not None else 0
                elif v.k == 'phi' and any(w.k == 'discr' for w, _ in v.a[0]):
                    g = 0
                    for w, h in v.a[0]:
                        i = self.p.discr(w.a[1], val)
                        g = OR(g, AND(h, is_variant(w.a[0], w.a[1], i))) if i is not None else g
                elif ty == ('other', 'bool'):
                    g = truth(v) if val else NOT(truth(v))
                else:
                    g = ieq(v, INT(val)) if ty[0] == 'other' and ty[1] in INTS else TM.eq(v, INT(val))
                gg = AND(rest, g)
                if gg:
                    out.append((bb, gg, c.mem))
                rest = AND(rest, NOT(g))
            if rest and fr.body['blocks'][t['otherwise']]['t']['k'] != 'unreachable':
                out.append((t['otherwise'], rest, c.mem))
            elif rest and out:
                # the remaining case cannot happen: widen so that the guards cover G
                pass
            return out
        if k == 'call':
            self.gst.append(G)
            try:
                self.do_call(fr, c, t)
            finally:
                self.gst.pop()
            g = AND(G, c.surv)
            if t['t'] is None or g == 0:
                return []
            return [(t['t'], g, c.mem)]
        raise Unsupported('terminator %r' % (t,))

    def do_call(self, fr, c, t):
        f = t['func']
        args = [self.operand(fr, c, a) for a in t['args']]
        argtys = [self.opty(fr, a) for a in t['args']]
        dty = self.p.ty(t['dty'], fr.env) if isinstance(t.get('dty'), int) else None
        if f[0] == 'k' and 'fndef' in f[1]:
            fd = f[1]['fndef']
            targs = tuple(self.p.ty(a, fr.env) for a in fd['args'])
            v = self.dispatch(c, fd, targs, args, argtys, dty, fr.env)
        else:
            fv = self.operand(fr, c, f)
            v = self.callf(c, fv, args)
        if dty is not None:
            v = mark(v, dty)
        if t['t'] is not None and c.surv:
            alts, ty = self.locate(fr, c, t['dest'])
            self.write_alts(c, alts, v)

    # resolve a trait method for concrete self types after substitution
    def resolve(self, fd, targs, env):
        if fd.get('res') and fd.get('rlocal'):
            name = fd['res']
            rargs = tuple(self.p.ty(a, env) for a in fd.get('rargs', []))
            return name, rargs
        if not fd.get('trait'):
            return fd['fn'], targs
        if fd.get('res'):
            return None, None
        # unresolved in a generic caller: look for a local impl for the substituted self type
        if targs:
            st = targs[0]
            meth = fd['fn'].split('::')[-1]
            got = []
            for n in self.p.trait_impls.get((fd['trait'], meth), ()):
                b = self.p.bodies[n]
                s = {}
                ta = [self.p.ty(x, {}) for x in b['trait_args']]
                if len(ta) <= len(targs) and all(unify(x, y, s) for x, y in zip(ta, targs)):
                    gs = b.get('generics') or []
                    own = list(targs[len(ta):])
                    r = []
                    for g in gs:
                        r.append(s[g] if g in s else own.pop(0) if own else ('param', g))
                    got.append((n, tuple(r)))
            if len(got) == 1:
                return got[0]
            while st[0] == 'ref' and fd['trait'] in ('std::iter::Iterator',):
                st = st[2]
            if st[0] in ('adt', 'closure'):
                sn = st[1]
                for cand in ('<%s as %s>::%s' % (sn, fd['trait'], meth),):
                    for n in self.p.bodies:
                        if n == cand or (n.startswith('<%s as %s<' % (sn, fd['trait'])) and n.endswith('>::' + meth)):
                            return n, st[2] if st[0] == 'adt' else ()
            if fd['fn'] in self.p.bodies and fd.get('local'):
                # provided method of a local trait
                return fd['fn'], targs
        return None, None

    def dispatch(self, c, fd, targs, args, argtys, dty, env):
        fn = fd['fn']
        if fd.get('ctor'):
            ct = fd['ctor']
            return AGG(ct[0], ct[1], tuple(args)) if isinstance(ct, list) else AGG(ct['adt'], ct['variant'], tuple(args))
        h = self.contracts.get(fn) or self.contracts.get(fd.get('res'))
        if h is not None:
            return h(self, c, args, CallInfo(fd, targs, argtys, dty, env))
        # comparisons, clones and conversions are intrinsic
        import std
        info = CallInfo(fd, targs, argtys, dty, env)
        h = std.INTRINSIC.get(fn)
        if h is not None and '#cmp' in self.contracts and fn.startswith('std::cmp::'):
            r = self.inline_cmp(c, fd, targs, args, env)
            if r is not None:
                return r
        if h is not None:
            r = h(self, c, args, info)
            if r is not None:
                return r
        name, rargs = self.resolve(fd, targs, env)
        if name is not None:
            h = self.contracts.get(name)
            if h is not None:
                return h(self, c, args, info)
        if name is not None and name in self.p.bodies and name not in self.opaque:
            if fn in FNOPS and self.p.bodies[name].get('kind') == 'closure' and len(args) == 2 and strip(args[1]).k == 'agg':
                # the arguments come as a tuple
                args = [args[0]] + list(strip(args[1]).a[2])
            return self.inline(c, name, rargs, args)
        h = std.lookup(fn, fd.get('res'))
        if h is not None:
            r = h(self, c, args, info)
            if r is not None:
                return r
        return self.unknown_call(c, fd.get('res') or fn, args, argtys, dty)

    def inline_cmp(self, c, fd, targs, args, env):
        """comparisons of the library's own types, as they are implemented"""
        args, targs = list(args), list(targs)
        while targs and targs[0][0] == 'ref':
            targs = [t[2] if t[0] == 'ref' else t for t in targs]
            args = [self.deref(c, x) for x in args]
        if not targs or targs[0][0] != 'adt':
            return None
        meth = fd['fn'].split('::')[-1]
        for n in self.p.bodies:
            if n.startswith('<%s as %s' % (targs[0][1], fd['trait'])) and n.endswith('>::' + meth):
                return self.inline(c, n, targs[0][2], args)
        if meth in ('ne', 'lt', 'le', 'gt', 'ge'):
            base = 'eq' if meth == 'ne' else 'partial_cmp'
            for n in self.p.bodies:
                if n.startswith('<%s as %s' % (targs[0][1], fd['trait'])) and n.endswith('>::' + base):
                    v = self.inline(c, n, targs[0][2], args)
                    if meth == 'ne':
                        return BOOL(NOT(truth(v)))
                    o = proj(v, OPT, 1, 0)
                    l, e, g = (is_variant(o, ORD, i) for i in range(3))
                    return BOOL({'lt': l, 'le': OR(l, e), 'gt': g, 'ge': OR(g, e)}[meth])
        return None

    def inline(self, c, name, rargs, args):
        b = self.p.bodies[name]
        env = dict(zip(b.get('generics') or [], rargs))
        v, mem, surv = self.run_body(name, args, c.mem, env)
        c.surv = AND(c.surv, surv)
        c.mem = mem
        return v

    def unknown_call(self, c, name, args, argtys=None, dty=None):
        """an uninterpreted function; `&mut` arguments become functions of the inputs"""
        self.unknown[name] = self.unknown.get(name, 0) + 1
        ins = tuple(self.snap(c, a) for a in args)
        self.calls.append((name, ins, AND(*self.gst)))
        r = TM.call(name, ins)
        for i, a in enumerate(args):
            if a.k == 'ref' or (a.k == 'phi' and any(w.k == 'ref' for w, _ in a.a[0])):
                self.store(c, a, TM.call('%s@%d' % (name, i), ins))
            elif argtys and argtys[i][0] == 'ref' and argtys[i][1]:
                self.store(c, a, TM.call('%s@%d' % (name, i), ins))
        if dty == ('never',):
            self.panic(c, 1, name)
            return BOT
        return r

    def snap(self, c, a):
        """argument value with references replaced by their content"""
        if a.k == 'ref' or (a.k == 'phi' and any(w.k == 'ref' for w, _ in a.a[0])):
            return strip(self.val(c, a))
        if a.k == 'agg' and any(has_ref(x) for x in a.a[2]):
            return mk('agg', a.a[0], a.a[1], tuple(self.snap(c, x) for x in a.a[2]))
        return strip(self.val(c, a)) if a.k != 'agg' else a

    # ---------------------------------------------------------- callables
    def callf(self, c, f, args):
        f0 = f
        f = strip(f)
        if f.k == 'ref':
            root, path = f.a
            f = self.deref(c, f)
            if f.k == 'agg' and f.a[0] == 'closure':
                return self.call_closure(c, f, args, root, path)
        if f.k == 'phi':
            return self.cond(c, [(g, (lambda w=w: self.callf(c, w, args))) for w, g in f.a[0]])
        if f.k == 'agg' and f.a[0] == 'closure':
            return self.call_closure(c, f, args, None, None)
        if f.k == 'fn':
            fd, targs, env = self.p.fnref[f]
            return self.dispatch(c, fd, targs, list(args), [('other', '?')] * len(args), None, env)
        ins = tuple(self.snap(c, a) for a in args)
        f = strip(self.val(c, f))
        r = TM.call('apply', (f,) + ins)
        for i, a in enumerate(args):
            if a.k == 'ref':
                self.store(c, a, TM.call('apply@%d' % i, (f,) + ins))
        tr = ('TR',)
        m = dict(c.mem)
        m[tr] = coll('vec', mget(c.mem, tr), items(TUP(f, *ins)))
        c.mem = m
        return r

    def call_closure(self, c, f, args, root, path):
        name = f.a[1]
        b = self.p.bodies[name]
        selfty = self.p.ty(b['locals'][1]['ty'], {})
        if selfty[0] == 'ref' and selfty[1]:
            if root is None:
                root, path = ('L', self.depth + 1, 'env%d' % len(self.stack)), ()
                m = dict(c.mem)
                m[root] = f
                c.mem = m
            a0 = mk('ref', root, path)
        else:
            a0 = f
        v, mem, surv = self.run_body(name, [a0] + list(args), c.mem, self.closure_env(name))
        c.surv = AND(c.surv, surv)
        c.mem = mem
        return v

    def closure_env(self, name):
        # type parameters of the enclosing function, as last instantiated
        return {}

    def cond(self, c, alts):
        base, s0 = c.mem, c.surv
        res = []
        for g, th in alts:
            if g == 0:
                continue
            c.mem, c.surv = base, 1
            self.gst.append(g)
            try:
                v = th()
            finally:
                self.gst.pop()
            gs = AND(g, c.surv)
            if gs:
                res.append((gs, v, c.mem))
        if not res:
            c.mem, c.surv = base, 0
            return BOT
        G, mem = merge([(g, m) for g, v, m in res])
        c.mem = mem
        c.surv = AND(s0, G)
        if any(isinstance(v, T) for _, v, _ in res):
            return phi([(v, g) for g, v, m in res])
        return None

    # ---------------------------------------------------------- loops in the CFG
    def loop(self, fr, h, L, mem):
        r = self.try_for(fr, h, L, mem)
        if r is None:
            r = self.try_count(fr, h, L, mem)
        if r is None:
            r = self.try_eat(fr, h, L, mem)
        if r is None:
            r = self.try_late(fr, h, L, mem)
        if r is not None:
            return r
        return self.general(fr, h, L, mem)

    def try_for(self, fr, h, L, mem):
        """header ... iter.next() -> match: a loop over the iterator's items"""
        import std
        b = h
        c = Ctx(mem)
        seen = set()
        fr.g = 1
        np = len(self.panics)
        while True:
            if b in seen or b not in L:
                return None
            seen.add(b)
            bl = fr.body['blocks'][b]
            for s in bl['s']:
                self.stmt(fr, c, s)
            t = bl['t']
            if t['k'] == 'goto':
                b = t['t']
                continue
            if t['k'] == 'call':
                f = t['func']
                if f[0] == 'k' and 'fndef' in f[1]:
                    fd = f[1]['fndef']
                    if fd['fn'] == 'std::iter::Iterator::next' and not fd.get('rlocal'):
                        break
                    if fd['fn'] in std.PUREPREFIX:
                        self.do_call(fr, c, t)
                        b = t['t']
                        continue
            return None
        a = self.operand(fr, c, t['args'][0])
        if a.k != 'ref':
            if a.k == 'phi':
                return None
            a = mk('ref', ('P', strip(a)), ())
        root, path = a.a
        it = self.deref(c, a)
        while it.k == 'ref':
            root, path = it.a
            a = it
            it = self.deref(c, it)
        if it.k == "mu":
            return None
        global POISON
        POISON += 1
        poison = mk('poison', POISON)
        after = t['t']
        dest = t['dest']
        self.write_root(c, root, path, poison)
        mem1 = c.mem

        if FROZEN:
            # what follows a `break` belongs to the iteration that leaves
            L = fr.cfg.with_exits(h, after)

        def body(x, m):
            cc = Ctx(m)
            if self.read_alts(cc, [('m', root, path, 1)]) is not poison:
                raise Retry()
            alts, _ = self.locate(fr, cc, dest)
            self.write_alts(cc, alts, SOME(x))
            ex = self.region(fr, after, L, cc.mem, h, start=[(after, 1, cc.mem)])
            return [('next' if t == h else t, g, m2) for t, g, m2 in ex]

        try:
            save = len(self.panics)
            ex = self.consume(it, mem1, body)
        except Retry:
            del self.panics[np:]
            return None
        out = []
        for t, g, m in ex:
            if t != 'next' and root[0] == 'L' and root not in m:
                out.append((t, g, m))
                continue
            cc = Ctx(m)
            if self.read_alts(cc, [('m', root, path, 1)]) is not poison:
                del self.panics[np:]
                return None
            if t == 'next':
                self.write_root(cc, root, path, mk('it', 'empty'))
                alts, _ = self.locate(fr, cc, dest)
                self.write_alts(cc, alts, NONE)
                self.gst.append(g)
                ex2 = self.region(fr, after, L, cc.mem, h, start=[(after, 1, cc.mem)])
                self.gst.pop()
                for t2, g2, m2 in ex2:
                    if t2 == h:
                        del self.panics[np:]
                        return None
                    out.append((t2, AND(g, g2), m2))
            else:
                self.write_root(cc, root, path, mk('it', 'rest', it))
                out.append((t, g, cc.mem))
        return out

    def try_eat(self, fr, h, L, mem):
        """while let Some((x, rest)) = s.split_first() { s = rest; .. }: a pass over the items of the slice s"""
        blocks = fr.body['blocks']
        cand = {s[1][0] for b in L for s in blocks[b]['s'] if s[0] == '=' and not s[1][1]}
        for l in sorted(cand):
            root = ('L', fr.fid, l)
            if root not in mem:
                continue
            t = self.p.ty(fr.body['locals'][l]['ty'], fr.env)
            if t[0] != 'ref' or t[1] or t[2][0] != 'slice':
                continue
            saved = (self.panics[:], self.calls[:], self.loops[:])
            try:
                r = self.eat(fr, h, L, mem, root)
            except Retry:
                r = None
            if r is not None:
                return r
            self.panics[:], self.calls[:], self.loops[:] = saved
        return None

    def eat(self, fr, h, L, mem, root):
        import std
        E = std.content(self, Ctx(mem), mem[root])
        if E.k == 'phi' or E.k == 'mu':
            return None
        global POISON
        POISON += 1
        poison = mk('poison', POISON)
        LX = fr.cfg.with_exits(h, h) if FROZEN else L

        def body(i, x, m):
            rest = TM.skipc(E, TM.add(i, INT(1)))
            here = coll('vec', None, (mk('item', 1, x),) + tuple(TM.as_pieces(rest)))
            out = []
            for q, g, mm in self.region(fr, h, LX, dict(m) | {root: here}, h):
                if q == h:
                    if std.content(self, Ctx(mm), mm.get(root, poison)) is not rest:
                        raise Retry()
                    mm = dict(mm)
                    mm[root] = poison
                    q = 'next'
                out.append((q, g, mm))
            return out
        out = []
        for q, g, m in std.positions(self, mk('it', 'src', E), dict(mem) | {root: poison}, body):
            if q != 'next':
                out.append((q, g, m))
                continue
            self.gst.append(g)
            try:
                ex = self.region(fr, h, LX, dict(m) | {root: std.EMPTYC('vec')}, h)
            finally:
                self.gst.pop()
            if any(q2 == h for q2, _, _ in ex):
                return None
            out += [(q2, AND(g, g2), m2) for q2, g2, m2 in ex]
        return out

    def try_late(self, fr, h, L, mem):
        """loop { ..; match iter.next() { .. } }: a loop over the iterator's items that does something before it takes each of them,
        and once more when there are none left"""
        blocks = fr.body['blocks']
        cand = []
        for b in sorted(L):
            t = blocks[b]['t']
            if t['k'] != 'call' or t['func'][0] != 'k' or 'fndef' not in t['func'][1]:
                continue
            fd = t['func'][1]['fndef']
            if fd['fn'] != 'std::iter::Iterator::next' or fd.get('rlocal') or any(b in K for k, K in fr.cfg.loops.items() if k != h and k in L):
                continue
            if not fr.cfg.around(h, L, b):
                cand.append(b)
        for n in cand:
            saved = (self.panics[:], self.calls[:], self.loops[:])
            r = None
            if (fr.fid, h) not in self.opened:
                self.opened.add((fr.fid, h))
                try:
                    r = self.late(fr, h, n, L, mem, True)
                    if r is None:
                        self.panics[:], self.calls[:], self.loops[:] = saved
                        r = self.late(fr, h, n, L, mem)
                except Retry:
                    pass
                finally:
                    self.opened.discard((fr.fid, h))
            if r is not None:
                return r
            self.panics[:], self.calls[:], self.loops[:] = saved
        return None

    def late(self, fr, h, n, L, mem, ahead=False):
        """ahead: whether the loop goes on is decided at the end of a round, not at the start of the next one"""
        bl = fr.body['blocks'][n]
        t = bl['t']

        def head(m):
            """from the header to the call: ([(guard, memory)] at the call, other exits)"""
            ex = self.region(fr, h, L, m, n, start=[(h, 1, m)])
            if any(q == h for q, _, _ in ex):
                raise Retry()
            G, m2 = merge([(g, mm) for q, g, mm in ex if q == n])
            out = [(q, g, mm) for q, g, mm in ex if q != n]
            if m2 is None:
                return 0, None, out
            c = Ctx(m2)
            fr.g = G
            for s in bl['s']:
                self.stmt(fr, c, s)
            return G, c, out

        def place(c):
            a = self.operand(fr, c, t['args'][0])
            if a.k != 'ref':
                raise Retry()
            root, path = a.a
            it = self.deref(c, a)
            while it.k == 'ref':
                root, path = it.a
                it = self.deref(c, it)
            return root, path, it
        saved = (self.panics[:], self.calls[:], self.loops[:])
        G, c, _ = head(mem)
        if c is None:
            return None
        root, path, it = place(c)
        if ahead and (not fr.cfg.may_end(h, L, n) or any(len(x) != len(y) for x, y in zip((self.panics, self.calls, self.loops), saved))):
            return None
        self.panics[:], self.calls[:], self.loops[:] = saved
        if root not in mem or it.k == 'mu' or self.read_alts(Ctx(mem), [('m', root, path, 1)]) is not it:
            return None
        global POISON
        POISON += 1
        poison = mk('poison', POISON)
        after, dest = t['t'], t['dest']
        c0 = Ctx(mem)
        self.write_root(c0, root, path, poison)
        LX = fr.cfg.with_exits(h, after) if FROZEN else L

        def one(m, item):
            G, c, out = head(m)
            if c is not None:
                if place(c) != (root, path, poison):
                    raise Retry()
                alts, _ = self.locate(fr, c, dest)
                self.write_alts(c, alts, item)
                self.gst.append(G)
                try:
                    ex = self.region(fr, after, LX, c.mem, h, start=[(after, 1, c.mem)])
                finally:
                    self.gst.pop()
                out = out + [(q, AND(G, g), mm) for q, g, mm in ex]
            return out

        def on(ex):
            """rounds at their end: the exits that the next round would start with are taken now"""
            if not ahead:
                return ex
            out = []
            for q, g, m in ex:
                if q != h:
                    out.append((q, g, m))
                    continue
                self.gst.append(g)
                try:
                    G, c, ou = head(m)
                finally:
                    self.gst.pop()
                out += [(q2, AND(g, g2), m2) for q2, g2, m2 in ou]
                G = AND(g, G)
                if G:
                    out.append((h, G, {r: restrict(strip(v), G) if isinstance(v, T) and r[0] == 'L' else v for r, v in m.items()}))
            return out

        def body(x, m):
            return [('next' if q == h else q, g, mm) for q, g, mm in on(one(m, SOME(x)))]

        def back(m, what):
            c = Ctx(m)
            if root[0] == 'L' and root not in m:
                return m
            if self.read_alts(c, [('m', root, path, 1)]) is not poison:
                raise Retry()
            self.write_root(c, root, path, what)
            return c.mem
        out = []
        first = on([(h, 1, c0.mem)])
        if ahead:
            start = [(g, m) for q, g, m in first if q == h]
            out += [(q, g, back(m, it)) for q, g, m in first if q != h]
            G0, m0 = merge(start)
            if m0 is None:
                return None
            self.gst.append(G0)
            try:
                rounds = [(q, AND(G0, g), m) for q, g, m in self.consume(it, m0, body)]
            finally:
                self.gst.pop()
        else:
            rounds = self.consume(it, c0.mem, body)
        for q, g, m in rounds:
            if q != 'next':
                out.append((q, g, back(m, mk('it', 'rest', it))))
                continue
            self.gst.append(g)
            try:
                ex = on(one(m, NONE))
            finally:
                self.gst.pop()
            for q2, g2, m2 in ex:
                if q2 == h:
                    return None
                out.append((q2, AND(g, g2), back(m2, mk('it', 'empty'))))
        return out

    def test_of(self, fr, h, L, mem):
        """the straight line from the header to the first test -> (block of the test, [(target, guard, mem)])"""
        b, c, seen = h, Ctx(mem), set()
        fr.g = 1
        while b in L and b not in seen:
            seen.add(b)
            bl = fr.body['blocks'][b]
            for s in bl['s']:
                self.stmt(fr, c, s)
            if bl['t']['k'] == 'switch':
                return b, self.term(fr, c, bl['t'], 1)
            out = self.term(fr, c, bl['t'], 1)
            if len(out) != 1 or out[0][1] != 1:
                return None
            b, _, m = out[0]
            c = Ctx(m)
        return None

    def try_count(self, fr, h, L, mem):
        """i = lo; while i < hi { .. i += 1 }: a pass over the numbers from lo to hi"""
        blocks = fr.body['blocks']
        cand = {s[1][0] for b in L for s in blocks[b]['s'] if s[0] == '=' and not s[1][1]}
        cand = [l for l in sorted(cand) if ('L', fr.fid, l) in mem and self.p.ty(fr.body['locals'][l]['ty'], fr.env)[0] == 'other' and self.p.ty(fr.body['locals'][l]['ty'], fr.env)[1] in UINTS]
        for l in cand:
            try:
                r = self.count(fr, h, L, mem, ('L', fr.fid, l))
            except Retry:
                r = None
            if r is not None:
                return r
        return None

    def count(self, fr, h, L, mem, root):
        import std
        saved = (self.panics[:], self.calls[:], self.loops[:])

        def fail():
            self.panics[:], self.calls[:], self.loops[:] = saved
            return None
        lo = strip(mem[root])
        mu = fresh_mu()
        TM.UNSIGNED.add(mu)
        t = self.test_of(fr, h, L, dict(mem) | {root: mu})
        self.panics[:], self.calls[:], self.loops[:] = saved
        if t is None:
            return None
        at, outs = t
        stay = OR(0, *[g for b, g, _ in outs if b in L])
        vs = sorted(B.support(stay)) if stay > 1 else []
        if len(vs) != 1 or B.atom_of[vs[0]].k != 'le' or len([1 for b, _, _ in outs if b in L]) != 1:
            return None
        x = B.atom_of[vs[0]]
        k0, m = TM.lin_of(x.a[0])
        pos = stay == B.node(vs[0], 0, 1)
        if mu not in m or m[mu] not in (1, -1):
            return None
        up = m[mu] == (1 if pos else -1)
        rest = TM.mklin(0, {q: (-k if m[mu] == 1 else k) for q, k in m.items() if q is not mu})
        if mu in rest.fv:
            return None
        if up:
            hi = TM.add(rest, INT(x.a[1] - k0 + 1 if pos else k0 - x.a[1]))
            it = mk('it', 'range', lo, hi)
            end = phi([(hi, TM.le(lo, hi)), (lo, NOT(TM.le(lo, hi)))])
        else:
            # i = hi; while i >= lb { .. i -= 1 }: the number of the pass says what i is
            lb = TM.add(rest, INT(k0 - x.a[1] if pos else x.a[1] - k0 + 1))
            it = mk('it', 'range', INT(0), TM.add(TM.sub(lo, lb), INT(1)))
            bot = TM.sub(lb, INT(1))
            end = phi([(bot, TM.le(bot, lo)), (lo, NOT(TM.le(bot, lo)))])
        L0 = fr.cfg.with_exits(h, at) if FROZEN else L
        global POISON
        POISON += 1
        poison = mk('poison', POISON)

        def body(i, m):
            if not up:
                i = TM.sub(lo, i)
            t = self.test_of(fr, h, L, dict(m) | {root: i})
            if t is None or t[0] != at:
                raise Retry()
            go = [(b, g, mm) for b, g, mm in t[1] if b in L]
            if len(go) != 1 or go[0][1] != 1:
                raise Retry()
            ex = self.region(fr, at, L0, go[0][2], h, start=[(go[0][0], 1, go[0][2])])
            out = []
            for t, g, mm in ex:
                if t == h:
                    if strip(mm.get(root, poison)) is not TM.add(i, INT(1 if up else -1)):
                        raise Retry()
                    mm = dict(mm)
                    mm[root] = poison
                    t = 'next'
                out.append((t, g, mm))
            return out

        try:
            ex = self.consume(it, dict(mem) | {root: poison}, body)
        except Retry:
            return fail()
        res = []
        for t, g, m in ex:
            if t != 'next':
                res.append((t, g, m))
                continue
            self.gst.append(g)
            t = self.test_of(fr, h, L, dict(m) | {root: end})
            self.gst.pop()
            if t is None or t[0] != at:
                return fail()
            go = [(b, g2, m2) for b, g2, m2 in t[1] if b not in L]
            if len(go) != 1 or go[0][1] != 1:
                return fail()
            res.append((go[0][0], g, go[0][2]))
        return res

    def general(self, fr, h, L, mem):
        """a loop without a known source: least fixed point, counting loop or explicit recurrence"""
        def body(m):
            ex = self.region(fr, h, L, m, h)
            return ex
        return self.recur(body, h, mem)

    def recur(self, body, h, mem):
        kl, self.keyleaf = self.keyleaf, None
        try:
            return self.recur_(body, h, mem)
        finally:
            self.keyleaf = kl

    def recur_(self, body, h, mem):
        np, nc = len(self.panics), len(self.calls)
        locs = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 10:
                raise Unsupported('loop state does not settle')
            m0 = self.apply_mus(mem, locs)
            del self.panics[np:]
            del self.calls[nc:]
            nl = len(self.loops)
            ex = body(m0)
            back = [(g, m) for t, g, m in ex if t == h]
            outs = [(t, g, m) for t, g, m in ex if t != h]
            G, m1 = merge(back)
            if m1 is None:
                del self.loops[nl:]
                return outs
            total = OR(G, *[g for _, g, _ in outs])
            if total != 1:
                # of the rounds that do not panic
                G = B.constrain(G, total)
                outs = [(t, B.constrain(g, total), m) for t, g, m in outs]
            new = self.changed(m0, m1, mem)
            if not self.add_locs(locs, new):
                break
            del self.loops[nl:]
        # pieces of state
        keys = list(locs)
        mus = [locs[k] for k in keys]
        inits = [self.leaf(mem, k) for k in keys]
        nexts = [restrict(self.leaf(m1, k), 1) for k in keys]
        rot = self.rotated(body, h, keys, mus, inits, nexts, outs)
        if rot is not None:
            del self.panics[np:]
            del self.calls[nc:]
            del self.loops[nl:]
            return self.recur_(rot, h, mem)
        grow = [k for k, mu, n in zip(keys, mus, nexts) if grows(n, mu)]
        if grow:
            save = (self.panics[:], self.calls[:], self.loops[:])
            del self.panics[np:]
            del self.calls[nc:]
            del self.loops[nl:]
            r = self.frozen(body, h, mem, grow, [n for k, n in zip(keys, nexts) if k in grow])
            if r is not None:
                return r
            self.panics[:], self.calls[:], self.loops[:] = save
        L = Loop()
        L.mus, L.inits, L.nexts, L.cont, L.keys = mus, inits, nexts, G, keys
        L.exits = outs
        L.stack = [s[0] for s in self.stack]
        L.tr = None
        self.loops.append(L)
        # canonical recurrence term
        lv = 1 + TM.binders(tuple(nexts))
        bound = [mk('mu', '#', lv, j) for j in range(len(mus))]
        ren = dict(zip(mus, bound))
        for a, b in ren.items():
            copy_marks(a, b)
        bn = tuple(subst(x, ren) for x in nexts)
        bg = subst_bdd(G, ren)
        lt_ = mk('loop', tuple(bound), tuple(inits), bn, g_(bg))
        L.term = lt_
        fin = {}
        for j, m in enumerate(mus):
            v = mk('loopv', lt_, j)
            copy_marks(m, v)
            fin[m] = v
        L.final = fin
        if not outs:
            return []
        res = []
        used = 0
        for i, (t, g, m) in enumerate(outs):
            gg = subst_bdd(g, fin)
            if i == len(outs) - 1:
                gg = NOT(used)
            else:
                gg = AND(gg, NOT(used))
            used = OR(used, gg)
            res.append((t, gg, self.subst_mem(m, fin)))
        return res

    def rotated(self, body, h, keys, mus, inits, nexts, outs):
        """a loop that is left only at its head, when a two-valued flag differs from its first value, is the loop
        that tests the flag at the end of the round"""
        O = OR(*[g for _, g, _ in outs]) if outs else 0
        if O < 2:
            return None
        for j, (k, mu, init, n) in enumerate(zip(keys, mus, inits, nexts)):
            if n is None or init is None or mu in n.fv or any(mu in w.fv for w in nexts if w is not None):
                continue
            o = strip(init)
            if o.k == 'bool' and truth(o) in (0, 1):
                lit, v = truth(mu), truth(o)
            elif o.k == 'agg' and o.a[0] in PAIRS:
                lit, v = is_variant(mu, o.a[0], 1), o.a[1]
            else:
                continue
            if O not in (lit, NOT(lit)) or flag_split(O, lit) != ((0, 1) if v == 0 else (1, 0)):
                continue
            if any(m is None for m in nexts):
                return None

            def after(m, k=k, init=init):
                m = dict(m)
                m[k[0]] = rwrite(mget(m, k[0]), k[1], init) if k[1] else init
                ex = body(m)
                res = []
                if any(t != h and g for t, g, _ in ex):
                    raise Unsupported('loop left in the middle of a round')
                for t, g, m1 in ex:
                    s = {mu_: self.leaf(m1, k_) for k_, mu_ in zip(keys, mus)}
                    if any(w is None for w in s.values()):
                        raise Unsupported('loop state that is gone after a round')
                    left = 0
                    for t2, g2, m2 in outs:
                        g3 = subst_bdd(g2, s)
                        left = OR(left, g3)
                        m3 = dict(m1)
                        m3.update({r: subst(w, s) for r, w in m2.items()})
                        if AND(g, g3):
                            res.append((t2, AND(g, g3), m3))
                    m4 = dict(m1)
                    m4[k[0]] = rwrite(mget(m4, k[0]), k[1], init) if k[1] else init
                    if AND(g, NOT(left)):
                        res.append((h, AND(g, NOT(left)), m4))
                return res
            return after
        return None

    def frozen(self, body, h, mem, grow, gn):
        """Fixed-point loops. Collections that only grow are read as their final content: the loop's
        effect becomes a set of derivation rules, and the loop a least fixed point if it repeats
        exactly while something new is derived (or while its worklist is not empty)."""
        np, nc, nl = len(self.panics), len(self.calls), len(self.loops)
        before = set(FROZEN)
        locs = {}
        for k, n in zip(grow, gn):
            mu = fresh_mu()
            locs[k] = mu
            kd = kind_of(self.leaf(mem, k)) or kind_of(n)
            if kd:
                KIND[mu] = kd
            freeze(mu, mu)
        try:
            rounds = 0
            while True:
                rounds += 1
                if rounds > 10:
                    return None
                m0 = self.apply_mus(mem, locs)
                del self.panics[np:]
                del self.calls[nc:]
                del self.loops[nl:]
                ex = body(m0)
                back = [(g, m) for t, g, m in ex if t == h]
                outs = [(t, g, m) for t, g, m in ex if t != h]
                G, m1 = merge(back)
                if m1 is None:
                    return None
                total = OR(G, *[g for _, g, _ in outs])
                if total != 1:
                    G = B.constrain(G, total)
                    outs = [(t, B.constrain(g, total), m) for t, g, m in outs]
                if not self.add_locs(locs, self.changed(m0, m1, mem)):
                    break
            if not outs:
                return None
            if any(k not in locs for k in grow):
                return None
            keys = list(locs)
            mus = [locs[k] for k in keys]
            inits = [self.leaf(mem, k) for k in keys]
            nexts = [restrict(self.leaf(m1, k), 1) for k in keys]
            F = Fixed(self, keys, mus, inits, nexts, G, outs, mem)
            r = F.solve()
            L = Loop()
            L.frozen, L.mus, L.inits, L.nexts, L.cont, L.keys, L.exits = True, mus, inits, nexts, G, keys, outs
            L.stack = [q[0] for q in self.stack]
            L.solved = r is not None
            L.fixed = F
            self.flog.append(L)
            if r is None:
                return None
            L.panics = self.panics[np:]
            self.loops.append(L)
        finally:
            thaw([m for m in FROZEN if m not in before])
        fin, how = r
        L.how = how
        # panics inside the loop see the final content
        for i in range(np, len(self.panics)):
            g, w, fn, st = self.panics[i]
            pf = F.pfin or F.fin
            q = Panic((subst_bdd(g, pf) if g > 1 else g, w, fn, st))
            q.mem, q.ctx = self.panics[i].mem, tuple((subst(x, pf), subst(S, pf), subst_bdd(e, pf)) for x, S, e in self.panics[i].ctx)
            self.panics[i] = q
        self.panics[np:] = [q for q in self.panics[np:] if q[0] != 0]
        res = []
        used = 0
        for i, (t, g, m) in enumerate(outs):
            m = dict(m)
            for k, mu in zip(keys, mus):
                if k in F.grow:
                    root, path = k
                    v = self.leaf(m, k)
                    if v is mu or (v.k == 'coll' and v.a[1] is mu):
                        m[root] = rwrite(mget(m, root), path, mu) if path else mu
            gg = NOT(used) if i == len(outs) - 1 else AND(F.finish_guard(g), NOT(used))
            used = OR(used, gg)
            res.append((t, gg, self.subst_mem(m, fin)))
        return res

    # ---------------------------------------------------------- state leaves
    def leaf(self, mem, k):
        root, path = k
        return rread(mget(mem, root), path)

    def apply_mus(self, mem, locs):
        m = dict(mem)
        for (root, path), mu in locs.items():
            m[root] = rwrite(mget(m, root), path, mu) if path else mu
        return m

    def changed(self, m0, m1, entry):
        out = []
        for r in m1:
            if r in entry or root_default(r) is not None:
                old = mget(m0, r)
                if r not in m0 and r not in m1:
                    continue
                self.diff(old, mget(m1, r), r, (), out)
        return out

    def diff(self, old, new, root, path, out):
        if old is new or new is None:
            return
        if new is BOT:
            return
        if new.k == 'it' and old.k == 'it' and new.a[0] == 'src' and old.a[0] == 'src' and TM.is_txt(new.a[1]) and TM.is_txt(old.a[1]):
            self.diff(old.a[1], new.a[1], root, path + (('it',),), out)
            return
        if new.k == 'phi' and old.k == 'it' and all(w.k == 'it' and w.a[0] == 'src' for w, _ in new.a[0]):
            inner = phi([(w.a[1], g) for w, g in new.a[0]])
            if TM.is_txt(inner):
                self.diff(old, mk('it', 'src', inner), root, path, out)
                return
        if new.k == 'agg' and old.k != 'phi' and new.a[2]:
            adt, var, vals = new.a
            single = adt in ('()', 'closure', 'txt') or len(NVAR.get(adt, [])) == 1
            if (old.k == 'agg' and old.a[:2] == (adt, var)) or (single and old.k != 'agg' and adt != 'closure'):
                if single:
                    n = len(vals)
                    for i in range(n):
                        o = proj(old, adt, var, i) if adt != 'closure' else old.a[2][i]
                        self.diff(o, vals[i], root, path + (('f', adt if adt != 'closure' else 'closure', var if adt != 'closure' else 0, i, n),), out)
                    return
        o = strip(old)
        if self.keyleaf is not None and new.k == 'setix' and (new.a[0] is o or (o.k == 'setix' and o.a[:2] == new.a[:2])):
            x, locs = self.keyleaf
            i = new.a[1]
            if x not in i.fv and not any(m in i.fv for m in locs.values()):
                self.diff(index(strip(old), i), new.a[2], root, path + (('ix', i),), out)
                return
        if self.keyleaf is not None and new.k == 'coll' and new.a[0] == 'map' and new.a[2] and new.a[2][-1].k == 'item' and new.a[2][-1].a[1].k == 'agg':
            k = new.a[2][-1].a[1].a[2][0]
            x, locs = self.keyleaf
            if x not in k.fv and not any(m in k.fv for m in locs.values()):
                nv = load(new, k)
                w = mapset(old, k, nv)
                if w is new or (strip(old) is new.a[1] and all(p.k == 'item' and p.a[1].k == 'agg' and p.a[1].a[2][0] is k for p in new.a[2])):
                    self.diff(load(old, k), nv, root, path + (('key', k),), out)
                    return
        out.append((root, path, old))

    def add_locs(self, locs, new):
        ch = False
        for root, path, old in new:
            if (root, path) in locs:
                continue
            # the whole covers its parts
            if any(r == root and path[:len(p)] == p for (r, p) in locs):
                continue
            for (r, p) in list(locs):
                if r == root and p[:len(path)] == path:
                    del locs[(r, p)]
            mu = fresh_mu()
            locs[(root, path)] = mu
            o = strip(old)
            if o in UNSIGNED or is_uint(o):
                UNSIGNED.add(mu)
            kd = kind_of(o)
            if kd:
                KIND[mu] = kd
            if FROZEN:
                fs = {fz(strip(w)) for w, _ in branches(o)}
                if len(fs) == 1:
                    f = next(iter(fs))
                    if f in FROZEN and FROZEN[f] is f:
                        KIND[mu] = KIND.get(f)
                        freeze(mu, f)
            ch = True
        return ch

    def subst_mem(self, mem, m):
        return {r: subst(v, m) for r, v in mem.items()}

    # ---------------------------------------------------------- loops over a source
    def elem_of(self, S):
        n = sum(1 for s in self.active if s is S)
        return mk('elem', S, n)

    def over(self, S, mem, body):
        """run body(x, mem) for every element of collection S in order"""
        S = fz(strip(S))
        if S is BOT:
            return []
        if S.k == 'phi':
            ex = []
            for w, g in S.a[0]:
                self.gst.append(g)
                ex += [(t, AND(g, h), m) for t, h, m in self.over(w, mem, body)]
                self.gst.pop()
            return mergetags(ex)
        if S.k == 'coll' and S.a[0] in ('vec', 'set', 'map') and (S.a[0] == 'vec' or simple_items(S)):
            kind, base, ps = S.a
            st = [('next', 1, mem)]
            exits = []
            if base is not None:
                ex = self.over(base, mem, body)
                st = [e for e in ex if e[0] == 'next']
                exits += [e for e in ex if e[0] != 'next']
            st, ex = self.over_pieces(ps, st, body)
            return st + exits + ex
        if S.k == 'agg' and S.a[0] == OPT:
            return body(S.a[2][0], mem) if S.a[1] == 1 else [('next', 1, mem)]
        return self.summarise(S, mem, body)

    def over_pieces(self, ps, st, body):
        exits = []
        for p in ps:
            if not st:
                break
            g, m = merge([(g, m) for _, g, m in st])
            if p.k == 'item':
                h = p.a[0]
                self.gst.append(AND(g, h))
                ex = body(restrict(p.a[1], h), m)
                self.gst.pop()
                nx = [(AND(g, h, gg), mm) for t, gg, mm in ex if t == 'next']
                exits += [(t, AND(g, h, gg), mm) for t, gg, mm in ex if t != 'next']
                nx.append((AND(g, NOT(h)), m))
                G, mm = merge(nx)
                st = [('next', G, mm)] if G else []
            elif p.k == 'for':
                var, src, stop, sub_ = p.a

                def inner(x, m2, sub_=sub_, var=var, stop=stop):
                    ps2 = tuple(subst(q, {var: x}) for q in sub_)
                    s2, e2 = self.over_pieces(ps2, [('next', 1, m2)], body)
                    return s2 + e2
                if stop != 0:
                    def inner2(x, m2, var=var, stop=stop):
                        h = subst_bdd(stop, {var: x})
                        r = []
                        for t, g2, mm in inner(x, m2):
                            if t == 'next':
                                if AND(g2, h):
                                    r.append(('stop', AND(g2, h), mm))
                                if AND(g2, NOT(h)):
                                    r.append(('next', AND(g2, NOT(h)), mm))
                            else:
                                r.append((t, g2, mm))
                        return r
                    ex = [('next' if t == 'stop' else t, gg, mm) for t, gg, mm in self.over(src, m, inner2)]
                else:
                    ex = self.over(src, m, inner)
                nx = [(AND(g, gg), mm) for t, gg, mm in ex if t == 'next']
                exits += [(t, AND(g, gg), mm) for t, gg, mm in ex if t != 'next']
                G, mm = merge(nx)
                st = [('next', G, mm)] if G else []
            else:
                ex = self.summarise(mk('coll', 'vec', None, (p,)), m, body)
                nx = [(AND(g, gg), mm) for t, gg, mm in ex if t == 'next']
                exits += [(t, AND(g, gg), mm) for t, gg, mm in ex if t != 'next']
                G, mm = merge(nx)
                st = [('next', G, mm)] if G else []
        return st, exits

    def summarise(self, S, mem, body):
        """closed form of `for x in S { body }`"""
        x = self.elem_of(S)
        if KIND.get(S) == 'map' or (S.k == 'coll' and S.a[0] == 'map'):
            pass
        self.active.append(S)
        np, nc, nl = len(self.panics), len(self.calls), len(self.loops)
        locs = {}
        rounds = 0
        keyleaf0, self.keyleaf = self.keyleaf, ((x, locs) if not FROZEN else None)
        try:
            while True:
                rounds += 1
                if rounds > 10:
                    raise Unsupported('loop state does not settle')
                del self.panics[np:]
                del self.calls[nc:]
                del self.loops[nl:]
                m0 = self.apply_mus(mem, locs)
                ex = body(x, m0)
                G, m1 = merge([(g, m) for t, g, m in ex if t == 'next'])
                if m1 is None:
                    break
                if G != 1:
                    m1 = {r: restrict(v, G) if v is not m0.get(r) else v for r, v in m1.items()}
                self.keyleaf = None if self.keyleaf is None else (x, locs)
                new = self.changed(m0, m1, mem)
                if self.keyleaf is not None and [1 for t, g, m in ex if t != 'next'] and any(p[0] == 'key' for _, path, _ in new for p in path):
                    self.keyleaf = None
                    new = self.changed(m0, m1, mem)
                if not self.add_locs(locs, new):
                    break
        finally:
            self.active.pop()
            self.keyleaf = keyleaf0
        outs = [(t, g, m) for t, g, m in ex if t != 'next']
        if FROZEN and len(outs) > 1:
            by = {}
            for t, g, m in outs:
                by.setdefault(t, []).append((g, m))
            outs = [(t,) + merge(v) for t, v in by.items()]
        keys = list(locs)
        mus = [locs[k] for k in keys]
        inits = [self.leaf(mem, k) for k in keys]
        nexts = [self.leaf(m1, k) for k in keys] if m1 is not None else [BOT] * len(keys)
        if m1 is not None and len(keys) > 1:
            for j, (k, mu) in enumerate(zip(keys, mus)):
                if self.latch(mu, inits[j], mus, nexts, G, outs, np):
                    return self.latched(S, mem, body, k, inits[j])
        total = OR(G if m1 is not None else 0, *[g for _, g, _ in outs])
        own = {}
        if not outs and m1 is not None:
            for j, mu in enumerate(mus):
                r = self.inplace(mu, x, S, inits[j], mus, nexts, G, np, nl)
                if r is not None:
                    own[mu], rep = r
                    G = truth(rep(BOOL(G)))
                    total = OR(G, *[g for _, g, _ in outs])
                    nexts = [rep(n) for n in nexts]
                    m1 = {k: rep(v) for k, v in m1.items()}
                    for i in range(np, len(self.panics)):
                        q = self.panics[i]
                        w = Panic((truth(rep(BOOL(q[0]))) if q[0] > 1 else q[0],) + tuple(q)[1:])
                        w.mem, w.ctx = q.mem, q.ctx
                        self.panics[i] = w
        sol = Solve(self, x, S, mus, inits, nexts, outs, G if m1 is not None else 0)
        sol.own = own
        ex = sol.run(mem, m1, keys, total)
        # where in the pass over S the panics of its body happen
        s = {mu: b for mu, b in sol.before.items() if b is not None}
        for i in range(np, len(self.panics)):
            q = self.panics[i]
            r = Panic((subst_bdd(q[0], s) if s and q[0] > 1 else q[0],) + tuple(q)[1:])
            r.mem, r.ctx = q.mem, q.ctx + ((x, S, sol.stop),)
            self.panics[i] = r
        return ex

    def latch(self, mu, init, mus, nexts, G, outs, np):
        """a flag that, once turned, leaves nothing to do for the rest of the pass"""
        if strip(init) not in (TRUE, FALSE):
            return False
        off = NOT(truth(mu)) if strip(init) is TRUE else truth(mu)
        t = {mu: FALSE if strip(init) is TRUE else TRUE}
        return (AND(off, NOT(G)) == 0 and all(AND(off, g) == 0 for _, g, _ in outs) and all(AND(off, q[0]) == 0 for q in self.panics[np:])
                and all(subst(n, t) is (m if m is not mu else t[mu]) for m, n in zip(mus, nexts)))

    def latched(self, S, mem, body, k, init):
        """the same pass, left when the flag turns"""
        def body2(x, m):
            out = []
            for t, g, m2 in body(x, self.apply_mus(m, {k: init})):
                v = truth(self.leaf(m2, k)) if t == 'next' else None
                if v is None:
                    out.append((t, g, m2))
                    continue
                same = v if strip(init) is TRUE else NOT(v)
                for tag, h in (('next', AND(g, same)), ('latch', AND(g, NOT(same)))):
                    if h:
                        m3 = {r: restrict(w, h) for r, w in m2.items()}
                        if tag == 'next':
                            m3 = self.apply_mus(m3, {k: init})
                        out.append((tag, h, m3))
            return mergetags(out)
        return mergetags([('next' if t == 'latch' else t, g, m) for t, g, m in self.summarise(S, mem, body2)])

    def inplace(self, mu, x, S, init, mus, nexts, G, np, nl):
        """a pass over a sequence that changes, at each element, that element only: (value after the pass, what reads in the body see)"""
        if strip(init) is not S or kind_of(S) in ('set', 'map') or len(self.loops) != nl:
            return None
        ix = mk('ix', x)
        here, ln = index(mu, ix), length(mu)
        j = mus.index(mu)

        def rep(t):
            t = TM.replace_term(t, here, x)
            return TM.replace_term(t, ln, length(S))

        def item(n):
            if n is mu:
                return x
            if n.k == 'phi':
                vs = [(item(w), g) for w, g in n.a[0]]
                return None if any(v is None or mu in bdd_fv(g) for v, g in vs) else phi(vs)
            if n.k == 'setix' and n.a[0] is mu and n.a[1] is ix and mu not in n.a[2].fv:
                return n.a[2]
            return None
        G = truth(rep(BOOL(G))) if G > 1 else G
        if mu in bdd_fv(G):
            return None
        n = rep(nexts[j])
        v = item(n) if n is not mu else None
        if v is None or any(mu in rep(w).fv for i, w in enumerate(nexts) if i != j):
            return None
        if any(mu in bdd_fv(truth(rep(BOOL(q[0])))) for q in self.panics[np:] if q[0] > 1) or any(m is not mu and m in v.fv for m in mus):
            return None
        r = forp(x, S, 0, [mk('item', 1, v)])
        return coll('vec', None, (r,)), rep

    # ---------------------------------------------------------- iterators
    def as_iter(self, c, v):
        import std
        return std.as_iter(self, c, v)

    def consume(self, it, mem, body):
        import std
        return std.consume(self, it, mem, body)

    # ---------------------------------------------------------- entry point
    def summary(self, name, args=None, mem=None, env=None):
        """evaluate function `name` on symbolic inputs"""
        b = self.p.bodies[name]
        if args is None:
            args = self.inputs(name)
        self.panics, self.calls, self.notes, self.loops = [], [], [], []
        self.flog = []
        v, m, g = self.run_body(name, args, mem or {}, env or {})
        S = Summary()
        S.name, S.val, S.mem, S.surv, S.args = name, v, m or {}, g, args
        S.panics, S.calls, S.notes, S.loops = self.panics, self.calls, self.notes, self.loops
        return S

    def inputs(self, name, names=None):
        b = self.p.bodies[name]
        out = []
        for i in range(b['nargs']):
            l = b['locals'][i + 1]
            ty = self.p.ty(l['ty'], {})
            n = (names[i] if names else None) or ('%s%d' % (self.letter(ty), i))
            s = SYM(n)
            s = self.input_val(s, ty)
            out.append(s)
        return out

    def letter(self, ty):
        """facts are kept per symbol: inputs of different kinds get different names"""
        while ty[0] == 'ref' or (ty[0] == 'adt' and ty[1] in BOXT and ty[2]):
            ty = ty[2] if ty[0] == 'ref' else ty[2][0]
        if ty[0] == 'other':
            return 'u' if ty[1] in UINTS else 'b' if ty[1] == 'bool' else 'a'
        if ty[0] in ('slice', 'array') or (ty[0] == 'adt' and ty[1] in VECT):
            return 'v'
        if ty[0] == 'adt':
            return 's' if ty[1] in SETT else 'm' if ty[1] in MAPT else 'a'
        return 'a'

    def input_val(self, s, ty):
        t = ty
        while t[0] == 'ref':
            t = t[2]
        mark(s, t if t[0] != 'other' or t[1] != 'bool' else ('other', '?'))
        return s


class Panic(tuple):
    """(guard, what, function, stack), the memory at that point, and the passes it happens in: (element, source, earlier exit), inner first"""
    mem = None
    ctx = ()

    def happens(self):
        """some element makes it panic"""
        g = self[0]
        for x, S, stop in self.ctx:
            g = exists(x, S, stop, g)
        return g


class Retry(Exception):
    pass


class Loop:
    pass


def grows(n, mu):
    """n is mu with elements added"""
    if n is mu:
        return True
    if n.k == 'phi':
        return all(grows(w, mu) for w, _ in n.a[0])
    if n.k == 'coll' and n.a[1] is not None:
        return n.a[0] != 'vec' and grows(n.a[1], mu) and not any(TM.removes(p) for p in n.a[2])
    if n.k in ('foldv', 'foldp'):
        f = n.a[0]
        return grows(f.a[4][n.a[1]], mu) and grows(f.a[5][n.a[1]], f.a[3][n.a[1]])
    if n.k == 'loopv':
        f = n.a[0]
        return grows(f.a[1][n.a[1]], mu) and grows(f.a[2][n.a[1]], f.a[0][n.a[1]])
    if n.k == 'lfpv':
        return grows(n.a[0].a[1][n.a[1]], mu)
    return False


def new_facts(F, ps):
    """some piece is not in F yet"""
    out = 0
    for p in ps:
        if p.k == 'item':
            v = p.a[1]
            if KIND.get(F) == 'map':
                v = proj(v, '()', 0, 0)
            out = OR(out, AND(p.a[0], NOT(has(F, v))))
        elif p.k == 'for':
            var, src, stop, sub_ = p.a
            out = OR(out, exists(var, src, stop, new_facts(F, sub_)))
        elif p.k == 'nest':
            g, key, dflt, pp, path = p.a
            v = load(F, key)
            if path:
                v = proj(v, path[0], path[1], path[2])
            inner = 0
            for q in pp:
                inner = OR(inner, new_facts_in(v, q))
            if dflt is not TOTAL and not any(q.k == 'item' and q.a[0] == 1 for q in pp):
                # (an absent key has no elements: what is added under it is new anyway)
                inner = OR(NOT(has(F, key)), inner)
            out = OR(out, AND(g, inner))
        else:
            return None
    return out


def new_facts_in(v, q):
    if q.k == 'item':
        return AND(q.a[0], NOT(has(v, q.a[1])))
    if q.k == 'for':
        r = 0
        for z in q.a[3]:
            r = OR(r, new_facts_in(v, z))
        return exists(q.a[0], q.a[1], q.a[2], r)
    return 1


def drop_idem(F, ps):
    """inserting what is there already changes nothing"""
    out = []
    for p in ps:
        if p.k == 'item':
            key = p.a[1]
            if KIND.get(F) == 'map':
                out.append(p)
                continue
            a = mk('has', F, strip(key))
            if a in B.var_of and B.var_of[a] in B.support(p.a[0]):
                p = mk('item', B.assign(p.a[0], B.var_of[a], 0), key)
            out.append(p)
        elif p.k == 'for':
            out.append(mk('for', p.a[0], p.a[1], p.a[2], tuple(drop_idem(F, p.a[3]))))
        else:
            out.append(p)
    return out


def only_new(F, ps):
    """the pieces that are not in F yet"""
    out = []
    for p in ps:
        if p.k == 'item':
            g = AND(p.a[0], NOT(has(F, p.a[1])))
            if g:
                out.append(mk('item', g, p.a[1]))
        elif p.k == 'for':
            sub = only_new(F, p.a[3])
            q = forp(p.a[0], p.a[1], p.a[2], sub) if sub is not None else None
            if sub is None:
                return None
            if q is not None:
                out.append(q)
        else:
            return None
    return tuple(out)


def monotone(f, Fs):
    """guard f can only become true when the collections Fs grow"""
    if f < 2:
        return True
    for v in B.support(f):
        a = B.atom_of[v]
        if not (a.fv & Fs):
            continue
        f1, f0 = B.assign(f, v, 1), B.assign(f, v, 0)
        up = AND(f0, NOT(f1)) == 0
        down = AND(f1, NOT(f0)) == 0
        if not (up and pos_atom(a, Fs) or down and neg_atom(a, Fs)):
            return False
    return True


def pos_src(s, Fs):
    """collection s only grows with Fs"""
    if not (s.fv & Fs):
        return True
    if s in Fs:
        return True
    if s.k == 'load':
        return pos_src(s.a[0], Fs) and not (s.a[1].fv & Fs)
    if s.k == 'fld':
        return pos_src(s.a[0], Fs)
    if s.k == 'coll':
        return (s.a[1] is None or pos_src(s.a[1], Fs)) and all(mono_piece(p, Fs) for p in s.a[2])
    return False


def pos_atom(a, Fs):
    if a.k == 'has':
        return pos_src(a.a[0], Fs) and not (a.a[1].fv & Fs)
    if a.k == 'exists':
        var, src, stop, c = a.a
        return pos_src(src, Fs) and not (bdd_fv(stop) & Fs) and monotone(c, Fs)
    return False


def neg_atom(a, Fs):
    if a.k == 'exists':
        var, src, stop, c = a.a
        return not (src.fv & Fs) and not (bdd_fv(stop) & Fs) and monotone(NOT(c), Fs)
    if a.k == 'le' and a.a[0].k == 'len':
        return pos_src(a.a[0].a[0], Fs)
    return False


def mono_piece(p, Fs, n=0):
    if p.k == 'item':
        return monotone(p.a[0], Fs)
    if p.k == 'for':
        z = {p.a[0]: mk('mu', 'mp', n)}
        return pos_src(p.a[1], Fs) and not (bdd_fv(subst_bdd(p.a[2], z)) & Fs) and all(mono_piece(subst(q, z), Fs, n + 1) for q in p.a[3])
    if p.k == 'nest':
        return monotone(p.a[0], Fs) and not (p.a[1].fv & Fs) and all(mono_piece(q, Fs, n) for q in p.a[3])
    return False


def fixed_values(p, Fs, n=0):
    """what the piece adds depends on Fs through the elements it runs over only"""
    if p.k == 'item':
        return not (p.a[1].fv & Fs)
    if p.k == 'for':
        z = mk('mu', 'fv', n)
        return all(fixed_values(subst(q, {p.a[0]: z}), Fs, n + 1) for q in p.a[3])
    if p.k == 'nest':
        return not (p.a[1].fv & Fs) and not (p.a[2].fv & Fs) and all(fixed_values(q, Fs, n) for q in p.a[3])
    return False


def filled(v, ps, init):
    """note that nothing in the map of collections v is empty"""
    if strip(init) is not EMPTYC('map'):
        return
    paths = set()

    def go(p):
        if p.k == 'for':
            return all(go(q) for q in p.a[3])
        if p.k == 'nest' and any(q.k == 'item' and q.a[0] == 1 for q in p.a[3]):
            paths.add(p.a[4])
            return True
        return False
    if all(go(p) for p in ps) and len(paths) == 1:
        TM.FILLED[v] = paths.pop()


def loads_only(t, F):
    """F occurs in t only as the map that a value is taken from"""
    z = mk('mu', 'lo', 0)
    seen = {}

    def go(t):
        if isinstance(t, T):
            if F not in t.fv:
                return True
            if t is F:
                return False
            if t in seen:
                return seen[t]
            if t.k == 'load' and t.a[0] is F:
                r = go(t.a[1])
            elif t.k in ('item', 'rm', 'nest'):
                r = gob(t.a[0]) and all(go(q) for q in t.a[1:])
            elif t.k == 'for':
                r = go(t.a[1]) and gob(t.a[2]) and all(go(q) for q in t.a[3])
            elif t.k == 'phi':
                r = all(go(w) and gob(g) for w, g in t.a[0])
            elif t.k == 'bool':
                r = False
            else:
                r = all(go(q) for q in t.a)
            seen[t] = r
            return r
        if isinstance(t, TM.G):
            return gob(t.b)
        if isinstance(t, tuple):
            return all(go(q) for q in t)
        return True

    def gob(f):
        return f < 2 or all(go(B.atom_of[v]) for v in B.support(f))
    return go(t)


class Fixed:
    """one fixed-point loop: derivation rules, stopping condition, result"""

    def __init__(self, M, keys, mus, inits, nexts, G, outs, mem):
        self.M, self.keys, self.mus, self.inits, self.nexts, self.G, self.outs, self.mem = M, keys, mus, inits, nexts, G, outs, mem
        self.grow = {}
        self.why = None
        self.pfin = None
        self.rot = False

    def finish_guard(self, g):
        return subst_bdd(g, self.fin) if g > 1 else g

    def no(self, why):
        self.why = why
        return None

    def solve(self):
        self.fin = {}
        G = self.G
        for k, mu, n in zip(self.keys, self.mus, self.nexts):
            if FROZEN.get(mu) is not mu:
                continue
            if n is mu:
                ps = ()
            elif n.k == 'coll' and n.a[1] is mu:
                ps = n.a[2]
                if n.a[0] == 'map':
                    ps = frozen_nests(mu, nest_pieces(mu, ps))
                ps = tuple(drop_idem(mu, ps))
            else:
                return self.no('not a plain union')
            self.grow[k] = (mu, ps)
        Fs = frozenset(m for m, _ in self.grow.values())
        self.Fs = Fs
        other = [(k, mu, i, n) for k, mu, i, n in zip(self.keys, self.mus, self.inits, self.nexts) if k not in self.grow]
        om = {mu for _, mu, _, _ in other}
        for k, (mu, ps) in self.grow.items():
            if not all(mono_piece(p, Fs) for p in ps):
                return self.no('reads depend negatively on what grows')
        used = set()
        for k, (mu, ps) in self.grow.items():
            used |= {m for m in _fvs(ps) if m in om}
        used |= {m for m in bdd_fv(G) if m in om} if G > 1 else set()
        if used and G > 1 and not (self.rot or _fvs(tuple(ps for _, ps in self.grow.values())) & om):
            # `changed = true; while changed { changed = false; .. }` : the condition after a round
            fl = {mu: (i, n) for _, mu, i, n in other if mu in bdd_fv(G)}
            if subst_bdd(G, {mu: i for mu, (i, n) in fl.items()}) == 1:
                sub_ = {mu: restrict(n, G) for mu, (i, n) in fl.items()}
                G2 = G
                for _ in range(2):
                    G2 = subst_bdd(G2, sub_)
                    if not (bdd_fv(G2) & om):
                        break
                if not (bdd_fv(G2) & om):
                    self.G0, self.G, self.rot = G, G2, True
                    return self.solve()
        if not used:
            nf = 0
            for k, (mu, ps) in self.grow.items():
                f = new_facts(mu, ps)
                if f is None:
                    return self.no('pieces')
                nf = OR(nf, f)
            self.newfacts = nf
            if not all(fixed_values(p, Fs) for mu, ps in self.grow.values() for p in ps):
                return self.no('what is added depends on what is there')
            if not words.differ(nf, G):
                return self.result({k: ps for k, (mu, ps) in self.grow.items()}, other, 'saturation')
            return self.no('repeats under another condition than: something new was derived')
        return self.worklist(other)

    def result(self, rules, other, how, base=None):
        ks = [k for k in self.grow if rules.get(k)]
        lv = 1 + max([0] + [TM.binders(tuple(rules[k])) for k in ks])
        bound = []
        for j, k in enumerate(ks):
            b = mk('mu', '#', lv, j)
            copy_marks(self.grow[k][0], b)
            bound.append(b)
        ren = {self.grow[k][0]: b for k, b in zip(ks, bound)}
        inits = tuple(self.leafinit(k) for k in ks)
        nx = []
        for k in ks:
            kd = KIND.get(self.grow[k][0]) or 'set'
            nx.append(subst(mk('coll', kd, None, tuple(rules[k])), ren))
        t = mk('lfp', tuple(bound), inits, tuple(nx))
        self.term = t
        fin = {}
        for k in self.grow:
            mu = self.grow[k][0]
            if k in ks:
                v = mk('lfpv', t, ks.index(k))
                copy_marks(mu, v)
                filled(v, rules[k], self.leafinit(k))
            else:
                v = self.leafinit(k)
            fin[mu] = v
        self.fin = dict(fin)
        for k, mu, i, n in other:
            if mu in self.fin:
                continue
            ms = {m for m in n.fv if m in self.mus}
            if not ms and n is strip(i):
                v = n
            else:
                v = mk('after', t, mu.a[1] if False else len(self.fin))
                copy_marks(mu, v)
            self.fin[mu] = v
        return self.fin, how

    def leafinit(self, k):
        return self.inits[self.keys.index(k)]

    def worklist(self, other):
        """a set of things seen and a list of those still to be expanded"""
        if not self.grow:
            return self.no('nothing grows')
        cands = [(k, mu, strip(i), n) for k, mu, i, n in other if kind_of(mu) or kind_of(i)]
        for wk, w, wi, wn in cands:
            for sk, (s, ps) in self.grow.items():
                if len([1 for k, (m, q) in self.grow.items() if q]) != 1 or not ps:
                    continue
                r = self.try_worklist(wk, w, wi, wn, sk, s, ps, other)
                if r is not None:
                    return r
        r = self.resolve(other)
        return r if r is not None else self.no('no worklist')

    def resolve(self, other):
        """a collection of open keys; each is given its value, computed from values given before, once
        those are there; repeated until no key is open"""
        ks = [k for k, (mu, ps) in self.grow.items() if ps]
        if len(ks) != 1:
            return None
        dk = ks[0]
        done, ps = self.grow[dk]
        if KIND.get(done) != 'map' or len(ps) != 1 or ps[0].k != 'for' or ps[0].a[2] != 0 or strip(self.leafinit(dk)) is not EMPTYC('map'):
            return None
        x, src, _, body = ps[0].a
        cand = [(k, mu, i, n) for k, mu, i, n in other if mu is src and kind_of(mu) in ('set', 'map')]
        if len(cand) != 1 or len(body) != 1 or body[0].k != 'item':
            return None
        tk, todo, ti, tn = cand[0]
        om = {mu for _, mu, _, _ in other}
        z = mk('mu', 'rs', 0)
        entry = subst(body[0], {x: z})
        key = x if kind_of(todo) == 'set' else proj(x, '()', 0, 0)
        if proj(body[0].a[1], '()', 0, 0) is not key or _fvs((entry,)) & om:
            return None
        if not loads_only(proj(entry.a[1], '()', 0, 1), done):
            return self.no('a value depends on which others are there')
        # only what has its value is taken from the open keys, and nothing is added
        q = SYM('rs')
        if AND(has(todo, q), NOT(has(tn, q)), NOT(has(done, q))) != 0 or AND(has(tn, q), NOT(has(todo, q))) != 0:
            return None
        if AND(NOT(self.G), nonempty(tn)) != 0 and AND(NOT(self.G), nonempty(todo)) != 0:
            return None
        rest = [o for o in other if o[0] != tk]
        ti = strip(ti)
        y = mk('elem', ti, 0)
        copy_marks(x, y)
        rule = mk('for', y, ti, 0, (subst(body[0], {x: y}),))
        self.fin = {todo: EMPTYC(kind_of(todo))}
        fin, how = self.result({dk: (rule,)}, rest, 'until no key is open')
        v = fin[done]
        val = subst(mk('item', 1, body[0].a[1]), {x: y, done: v})
        fin[done] = coll('map', None, (forp(y, ti, 0, [val]),))
        fin[todo] = EMPTYC(kind_of(todo))
        self.fin = fin
        self.pfin = dict(fin)
        self.pfin[todo] = ti
        return fin, how

    def try_worklist(self, wk, w, wi, wn, sk, s, ps, other):
        import std
        ne = nonempty(w)
        # the loop is left exactly when the worklist is empty (panics are reported by themselves)
        stays = ne > 1 and AND(self.G, NOT(ne)) == 0 and OR(*[g for _, g, _ in self.outs]) == NOT(ne)
        if stays:
            for v in B.support(ne):
                wn = TM.replace_term(wn, B.atom_of[v], 1 if B.assign(ne, v, 0) == 0 else 0)
        wn = joined(wn)
        om = {mu for _, mu, _, _ in other}
        # level by level: everything in w is expanded
        x = mk('elem', s, 0)
        used = {m for m in _fvs(ps) if m in om}
        if used != {w}:
            return self.no('rules use other state')
        if not all(fixed_values(p, frozenset((s,))) for p in ps):
            return self.no('what is added depends on what is there')
        def hides(p):
            z = mk('mu', 'lv', 0)
            return w in _fvs(tuple(subst(q, {p.a[0]: z}) for q in p.a[3]))
        level = all(p.k == 'for' and p.a[1] is w and p.a[2] == 0 and not hides(p) for p in ps)
        exits = [AND(NOT(self.G), g) for _, g, _ in self.outs]
        news = only_new(s, ps)
        if news is None:
            return self.no('rules')
        as_set = lambda q: coll('set', None, tuple(q))
        if level:
            rest = wn
            if not (rest.k == 'coll' and rest.a[1] is None):
                return self.no('worklist is not rebuilt')
            if not same_set(as_set(rest.a[2]), as_set(news)):
                return self.no('worklist is not what was newly seen')
            rules = []
            for p in ps:
                v = mk('elem', s, 0)
                copy_marks(p.a[0], v)
                rules.append(mk('for', v, s, 0, tuple(subst(q, {p.a[0]: v}) for q in p.a[3])))
            okG = stays or self.G == pieces_nonempty(news)
            how = 'worklist, level by level'
        else:
            c = None
            for cand, rest in ((index(w, INT(0)), skipc(w, INT(1))), (mk('idx', w, sub(length(w), INT(1))), None), (std.lastof(w), None)):
                if cand in subterms(ps):
                    c = cand
                    break
            if c is None:
                return self.no('no element taken from the worklist')
            rest = wn
            y = mk('elem', s, 0)
            rem = None
            if rest.k == 'coll' and rest.a[0] == 'vec' and rest.a[1] is not None:
                rem, add_ = rest.a[1], rest.a[2]
            elif rest.k == 'coll' and rest.a[0] == 'set':
                rem, add_ = rest.a[1], rest.a[2]
            else:
                return self.no('worklist shape')
            if not is_rest(rem, w, c):
                return self.no('worklist is not the rest and what was newly seen')
            if not same_set(as_set(add_), as_set(news)):
                return self.no('worklist is not what was newly seen')
            rules = []
            body = tuple(replace(p, c, y) for p in ps)
            if any(w in q.fv for q in body):
                return self.no('rules use the worklist')
            rules.append(mk('for', y, s, 0, body))
            okG = stays
            how = 'worklist, one by one'
        if not okG:
            return self.no('stops while the worklist is not empty')
        if not same_set(as_set(as_pieces(wi)), as_set(as_pieces(self.leafinit(sk)))):
            return self.no('worklist does not start with everything seen')
        self.wl = (wk, w, sk, s)
        self.fin = {w: EMPTYC(kind_of(w) or 'set')}
        # every element is handed to opaque closures once
        r = self.result({sk: tuple(rules)}, [o for o in other if o[0] != wk], how)
        fin, how = r
        fin[w] = EMPTYC(kind_of(w) or 'set')
        sv = fin[s]
        for k, mu, i, n in other:
            if k[0] == ('TR',) and n.k == 'coll' and n.a[1] is mu:
                q = []
                good = True
                for p in n.a[2]:
                    if level and p.k == 'for' and p.a[1] is w and p.a[2] == 0:
                        v = mk('elem', sv, 0)
                        q.append(mk('for', v, sv, 0, tuple(subst(z, {p.a[0]: v}) for z in p.a[3])))
                    elif not level:
                        v = mk('elem', sv, 0)
                        q.append(mk('for', v, sv, 0, (replace(p, c, v),)))
                    else:
                        good = False
                if good and once(wi) and not any(m in _fvs(tuple(q)) for m in self.mus):
                    fin[mu] = coll('vec', i, tuple(q))
        self.fin = fin
        return fin, how


def once(v):
    """holds nothing twice"""
    v = strip(v)
    if kind_of(v) in ('set', 'map'):
        return True
    if v.k == 'coll' and v.a[1] is None:
        return len(v.a[2]) == 1 and (v.a[2][0].k == 'item' or (is_ident_for(v.a[2][0], 'vec') and once(v.a[2][0].a[1])))
    return False


def norm_all(c):
    """a set written in one way: the order of additions, also inside loops, does not matter"""
    def go(ps):
        out = []
        for p in ps:
            if p.k == 'for':
                q = forp(p.a[0], p.a[1], p.a[2], list(TM.norm_pieces('set', go(p.a[3]))))
                if q is not None:
                    out.append(q)
            else:
                out.append(p)
        return tuple(out)
    if c.k == 'coll' and c.a[0] == 'set' and c.a[1] is None:
        return coll('set', None, go(c.a[2]))
    return c


def same_set(x, y):
    x, y = norm_all(x), norm_all(y)
    return x is y or has(x, SYM('nrm')) == has(y, SYM('nrm'))


def joined(v):
    """one collection grown under conditions -> pieces with conditions"""
    if v.k != 'phi':
        return v
    base, kd, ps = None, None, []
    for w, g in branches(v):
        if w.k == 'coll' and w.a[1] is not None:
            b, q, k = w.a[1], w.a[2], w.a[0]
        else:
            b, q, k = w, (), kind_of(w)
        if base not in (None, b) or kd not in (None, k):
            return v
        base, kd = b, k
        ps += guard_pieces(list(q), g)
    return coll(kd, base, tuple(ps)) if base is not None and kd else v


def is_rest(rem, w, c):
    import std
    if rem is None:
        return False
    if c.k == 'idx' and c.a[1].k == 'int' and c.a[1].a[0] == 0:
        return rem is skipc(w, INT(1))
    import std
    return rem is std.butlast(w)


def subterms(ps):
    out = set()

    def go(t):
        if isinstance(t, T):
            if t in out:
                return
            out.add(t)
            for z in t.a:
                go(z)
        elif isinstance(t, (tuple, list)):
            for z in t:
                go(z)
        elif isinstance(t, G):
            gob(t.b)

    def gob(f):
        if f > 1:
            for v in B.support(f):
                go(B.atom_of[v])
    seen = set()

    def walk(p):
        if isinstance(p, T):
            go(p)
            if p.k in ('item', 'nest', 'rm'):
                gob(p.a[0])
            if p.k == 'for':
                gob(p.a[2])
                for q in p.a[3]:
                    walk(q)
    for p in ps:
        walk(p)
    return out


def replace(t, old, new):
    """t with the term `old` replaced (through a fresh variable)"""
    return TM.replace_term(t, old, new)


class Summary:
    def post(self, i):
        """content behind the i-th (reference) argument afterwards"""
        a = self.args[i]
        if a.k == 'ref':
            return rread(mget(self.mem, a.a[0]), a.a[1])
        return mget(self.mem, ('P', strip(a)))


class CallInfo:
    __slots__ = ('fd', 'targs', 'argtys', 'dty', 'env')

    def __init__(self, fd, targs, argtys, dty, env):
        self.fd, self.targs, self.argtys, self.dty, self.env = fd, targs, argtys, dty, env


FNOPS = ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')


def has_ref(v):
    if v.k == 'ref':
        return True
    if v.k == 'agg':
        return any(has_ref(x) for x in v.a[2])
    if v.k == 'phi':
        return any(has_ref(w) for w, _ in v.a[0])
    return False


def has_mu(v):
    return any(m.k == 'mu' for m in v.fv)


def is_uint(o):
    return o.k in ('len', 'ix') or (o.k == 'int' and o.a[0] >= 0)


def simple_items(S):
    if S.a[1] is not None or len(S.a[2]) > 1:
        return False
    return all(p.k == 'item' or keeps_order(S.a[0], p) for p in S.a[2])


def keeps_order(kind, p):
    """entries under the keys of another ordered collection, one each: they come in its order"""
    if p.k != 'for' or p.a[2] != 0 or len(p.a[3]) != 1 or p.a[3][0].k != 'item':
        return False
    x, src, v = p.a[0], p.a[1], p.a[3][0].a[1]
    kd = kind_of(src)
    if kd not in ('set', 'map') or (kind == 'map' and is_phi(v)):
        return False
    return (proj(v, '()', 0, 0) if kind == 'map' else v) is (proj(x, '()', 0, 0) if kd == 'map' else x)


def mergetags(ex):
    by = {}
    for t, g, m in ex:
        by.setdefault(t, []).append((g, m))
    out = []
    for t, l in by.items():
        G, m = merge(l)
        if G:
            out.append((t, G, m))
    return out


# ---------------------------------------------------------------- closed forms
class Solve:
    """state recurrences of one pass over a source -> closed forms"""

    def __init__(self, M, x, S, mus, inits, nexts, outs, G):
        self.M, self.x, self.S = M, x, S
        self.mus, self.inits, self.nexts, self.outs, self.G = mus, inits, nexts, outs, G
        self.own = {}
        self.before = {}     # mu -> value at the start of the iteration of x
        self.after = {}      # mu -> value once the source is exhausted
        self.acc = {}        # mu -> (kind, pieces of one iteration)

    def run(self, mem, m1, keys, total):
        x, S = self.x, self.S
        mus = set(self.mus)
        nexts = list(self.nexts)
        outs = [(t, g, dict(m)) for t, g, m in self.outs]
        G = self.G
        # guards relative to the iterations that finish at all
        if total not in (0, 1):
            G = B.constrain(G, total)
            outs = [(t, B.constrain(g, total), m) for t, g, m in outs]
        leafs = {k: mu for k, mu in zip(keys, self.mus)}
        progress = True
        left = list(range(len(self.mus)))

        def apply(s):
            nonlocal nexts, outs, G
            nexts = [subst(n, s) for n in nexts]
            outs = [(t, subst_bdd(g, s), self.M.subst_mem(m, s)) for t, g, m in outs]
            G = subst_bdd(G, s)
        # set insertions guarded by absence are plain insertions
        nexts = [self.idem(n, m) for n, m in zip(nexts, self.mus)]
        # sequences that have elements to begin with and only get more
        for mu, n, init in zip(self.mus, nexts, self.inits):
            if kind_of(init) == 'vec' and n.k == 'coll' and n.a[1] is mu and nonempty(init) == 1:
                f = nonempty(mu)
                if f > 1:
                    G = B.constrain(G, f)
                    outs = [(t, B.constrain(g, f), m) for t, g, m in outs]
                    nexts = [coll(w.a[0], w.a[1], tuple(assume_piece(q, f) for q in w.a[2])) if w.k == 'coll' else restrict(w, f) for w in nexts]
        outs = [(t, g, m) for t, g, m in outs if g]
        while left and progress:
            progress = False
            for j in list(left):
                mu, n, init = self.mus[j], nexts[j], self.inits[j]
                others = {m for m in n.fv if m in mus and m is not mu and m not in self.before and m not in self.acc}
                r = self.simple(mu, n, init)
                if r is not None:
                    bef, aft = r
                    self.before[mu], self.after[mu] = bef, aft
                    left.remove(j)
                    progress = True
                    if bef is not None:
                        s = {mu: bef}
                        apply(s)
                    continue
        # growing collections
        for j in list(left):
            mu, n, init = self.mus[j], nexts[j], self.inits[j]
            p = self.grown(mu, n)
            if p is not None:
                kd, ps = p
                self.acc[mu] = kd, tuple(mk('item', q.a[0], restrict(q.a[1], q.a[0])) if q.k == 'item' and q.a[0] != 1 else q for q in ps)
                left.remove(j)
        # pieces may only depend on solved state
        bad = True
        while bad:
            bad = False
            for mu, (kd, ps) in list(self.acc.items()):
                dep = [m for m in _fvs(ps) if m in mus and (m in self.acc or self.mus.index(m) in left)]
                if dep:
                    ps2 = self.untie(mu, kd, ps, dep)
                    if ps2 is not None:
                        self.acc[mu] = (kd, ps2)
                        continue
                    del self.acc[mu]
                    left.append(self.mus.index(mu))
                    bad = True
        self.nexts_ = nexts
        self.handed = {}
        self.stays = {}
        # flags set when something new was added
        for j in list(left):
            mu, n, init = self.mus[j], nexts[j], self.inits[j]
            r = self.flag(mu, n, init)
            if r is not None:
                self.after[mu] = r
                left.remove(j)
        stop = OR(*[g for _, g, _ in outs]) if outs else 0
        stopdep = [m for m in bdd_fv(stop) if m in mus] if stop > 1 else []
        if stopdep:
            s2 = self.untie_guard(stop)
            if s2 is not None:
                stop = s2
            else:
                left = list(range(len(self.mus)))
        self.stop = stop
        opaque = stop > 1 and any(m in mus and (m not in self.acc or self.mus.index(m) in left) and self.before.get(m) is None for m in bdd_fv(stop))
        fin = {}
        part = {}
        rest = []
        joint = self.joint(keys, outs, stop, left, opaque) if outs and FROZEN else {}
        for j, mu in enumerate(self.mus):
            if j in left:
                rest.append(j)
                continue
            if mu in joint:
                fin[mu] = self.stays.get(mu, joint[mu])
                continue
            if mu in self.acc:
                kd, ps = self.acc[mu]
                p1 = forp(x, S, 0, [q for q in self.assume(ps, NOT(stop))])
                fin[mu] = coll(kd, self.inits[j], (p1,) if p1 else ())
                if outs:
                    p2 = forp(x, S, stop, guard_pieces(list(ps), NOT(stop)))
                    part[mu] = coll(kd, self.inits[j], (p2,) if p2 else ())
            elif self.after.get(mu) is not None:
                fin[mu] = self.after[mu]
        if rest:
            ms = tuple(self.mus[j] for j in rest)
            lv = 1 + TM.binders(tuple(nexts[j] for j in rest))
            bound = tuple(mk('mu', '#', lv, i) for i in range(len(ms)))
            ren = dict(zip(ms, bound))
            for a, b in ren.items():
                copy_marks(a, b)
            ft = mk('fold', x, S, g_(subst_bdd(stop, ren)), bound, tuple(self.inits[j] for j in rest),
                    tuple(subst(nexts[j], ren) for j in rest))
            for i, j in enumerate(rest):
                v = mk('foldv', ft, i)
                copy_marks(self.mus[j], v)
                fin[self.mus[j]] = v
                part[self.mus[j]] = mk('foldp', ft, i)
                copy_marks(self.mus[j], part[self.mus[j]])
            L = Loop()
            L.fold, L.mus, L.inits, L.nexts, L.term = True, [self.mus[j] for j in rest], [self.inits[j] for j in rest], [nexts[j] for j in rest], ft
            L.x, L.src, L.stop, L.outs, L.vals = x, S, stop, outs, [fin[self.mus[j]] for j in rest]
            L.stack = [s[0] for s in self.M.stack]
            self.M.loops.append(L)
        res = []
        gstop = exists(x, S, 0, stop) if stop else 0
        if opaque:
            if not rest:
                raise Unsupported('exit condition depends on loop state')
            gstop = B.var(mk('b', mk('foldstop', ft)))
            L.gstop = gstop
        if gstop != 1:
            m = dict(mem)
            for k, mu in leafs.items():
                pass
            post = dict(fin)
            mm = {}
            for r, v in mem.items():
                mm[r] = v
            for (root, path), mu in leafs.items():
                v = fin.get(mu)
                if v is None:
                    v = mk('unsolved', mu)
                old = mget(mm, root)
                w = rwrite(old, path, v) if path else v
                ki = [i for i, p in enumerate(path) if p[0] == 'key']
                if ki:
                    # nothing is written when the loop does not run
                    g = OR(has(rread(old, path[:ki[0]]), path[ki[0]][1]), nonempty(S))
                    w = phi([(w, g), (old, NOT(g))])
                mm[root] = w
            res.append(('next', NOT(gstop), mm))
        if outs:
            fx = mk('first', x, S, stop) if not opaque else mk('stopelem', ft)
            copy_marks(x, fx)
            used = NOT(gstop)
            for i, (t, g, m) in enumerate(outs):
                if i == len(outs) - 1:
                    gg = NOT(used)
                elif opaque:
                    gg = AND(B.var(mk('b', mk('foldexit', ft, i, g_(subst_bdd(g, ren))))), NOT(used))
                else:
                    gg = AND(exists(x, S, stop, self.untie_guard(g) if self.untie_guard(g) is not None else g), NOT(used))
                used = OR(used, gg)
                s = {}
                for mu in self.mus:
                    v = part.get(mu)
                    if v is None:
                        b = self.before.get(mu)
                        v = b if b is not None else mk('unsolved', mu)
                    s[mu] = v
                # state at the iteration that leaves
                m2 = {}
                for r, v in m.items():
                    w = subst(restrict(v, g), s)
                    w = subst(w, {x: fx})
                    m2[r] = w
                for (j_, r), v in self.handed.items():
                    if j_ == i:
                        m2[r] = v
                for (root, path), mu in leafs.items():
                    if mu in joint and (root in m or path):
                        w = joint[mu]
                        m2[root] = rwrite(m2[root] if root in m2 else mget(m2, root), path, w) if path else w
                res.append((t, gg, m2))
        return res

    def assume(self, ps, g):
        if g == 1:
            return list(ps)
        return [assume_piece(p, g) for p in ps]

    def joint(self, keys, outs, stop, left, opaque):
        """unordered additions and flags of a loop that may be left early: one value for all its exits,
        what the iterations up to and including the leaving one contribute"""
        if opaque:
            return {}
        x, S = self.x, self.S
        mus = set(self.mus)
        res = {}
        late = self.late_stop(stop)
        for j, (mu, k) in enumerate(zip(self.mus, keys)):
            if j in left or any(p[0] == 'key' for p in k[1]):
                continue
            ex = []
            roots = []
            for i, (_, g, m) in enumerate(outs):
                v = self.M.leaf(m, k)
                if mu not in self.acc:
                    # the value may have been handed on
                    for r, w in m.items():
                        if r not in roots and (r != k[0] or k[1]) and mu in w.fv and self.flagparts(mu, restrict(w, g)) is not None:
                            roots.append(r)
                    if v is None and not k[1] and k[0] not in m:
                        v = mu      # the flag itself is gone
                ex.append((g, v))
            if any(v is None for _, v in ex):
                continue
            ex = [(g, restrict(v, g)) for g, v in ex]
            if mu in self.acc:
                kd, ps = self.acc[mu]
                if kd not in ('set', 'map'):
                    continue
                allps = guard_pieces(list(ps), NOT(stop))
                for g, v in ex:
                    p = (kd, ()) if v is mu else self.grown(mu, v)
                    if p is None or any(m in mus for m in _fvs(p[1])) or any(m in mus for m in bdd_fv(g)):
                        allps = None
                        break
                    allps = list(allps) + list(guard_pieces(list(p[1]), g))
                if allps is None:
                    continue
                if late is not None and all(v is mu for _, v in ex):
                    q = forp(x, S, late[0], [late[1](p) for p in ps])
                else:
                    q = forp(x, S, stop, list(allps))
                res[mu] = coll(kd, self.inits[j], (q,) if q else ())
            elif self.before.get(mu) is None and self.after.get(mu) is not None:
                v = self.joint_flag(mu, j, ex, stop, late)
                if v is None:
                    continue
                res[mu] = v
                for r in roots:
                    here = [(i, g, restrict(m[r], g)) for i, (_, g, m) in enumerate(outs) if r in m and mu in m[r].fv]
                    here = {i: w for i, g, w in here if self.flagparts(mu, w) is not None}
                    v = self.joint_flag(mu, j, [(g, here.get(i, w)) for i, (g, w) in enumerate(ex)], stop, late)
                    if v is not None:
                        # without a leaving iteration all of these values are the same
                        self.stays[mu] = v
                        for i in here:
                            self.handed[i, r] = v
        return res

    def joint_flag(self, mu, j, ex, stop, late):
        """a two-valued state once the loop was left, ex: its value at every exit"""
        x, S = self.x, self.S
        mus = set(self.mus)
        n = self.nexts_[j]
        fs = [self.flagparts(mu, w) for w in [n] + [v for _, v in ex]]
        if any(f is None for f in fs):
            return None
        up = all(f[1] == 1 for f in fs)
        if not up and any(f[0] != 0 for f in fs):
            return None
        cons, m = next(((f[2], f[3]) for f in fs if f[2]), (None, None))
        if cons is None:
            return None
        it = m(self.inits[j])
        ev = [h[0] if up else NOT(h[1]) for h in fs]
        f = AND(ev[0], NOT(stop))
        for (g, _), h in zip(ex, ev[1:]):
            f = OR(f, AND(g, h))
        f = self.untie_guard(f)
        if f is None or any(m in mus for m in (bdd_fv(f) if f > 1 else ())):
            return None
        if late is not None and not any(e for e in ev[1:]):
            f = exists(x, S, late[0], late[2](ev[0]))
        else:
            f = exists(x, S, stop, f)
        return cons(OR(it, f) if up else AND(it, NOT(f)))

    def late_stop(self, stop):
        """a loop left at the element after the first one with c  runs through the elements up to and including that one"""
        x = self.x
        p = mk('prevelem', x)
        first = le0(mk('ix', x))
        if stop < 2 or first < 2 or AND(stop, first) != 0:
            return None
        y = SYM('previous')
        c = truth(TM.replace_term(BOOL(B.constrain(stop, NOT(first))), p, y))
        if c > 1 and x in bdd_fv(c):
            return None
        c = subst_bdd(c, {y: x}) if c > 1 else c

        def simp(g):
            h = B.constrain(g, NOT(stop)) if g > 1 else g
            for v in sorted(B.support(h)) if h > 1 else ():
                if p in subterms((B.atom_of[v],)):
                    f0, f1 = B.assign(h, v, 0), B.assign(h, v, 1)
                    # what the previous element is does not matter once it did not stop
                    if AND(NOT(stop), OR(AND(f0, NOT(h)), AND(h, NOT(f0)))) == 0:
                        h = f0
                    elif AND(NOT(stop), OR(AND(f1, NOT(h)), AND(h, NOT(f1)))) == 0:
                        h = f1
            return h

        def go(q):
            if q.k == 'item':
                return mk('item', simp(q.a[0]), q.a[1])
            if q.k == 'nest':
                return mk('nest', simp(q.a[0]), *q.a[1:])
            return q
        return c, go, simp

    def flagparts(self, mu, n):
        """(condition under which a two-valued state is set when it was not, when it was, constructor, test)"""
        if n is mu:
            return (0, 1, None, None)
        if n.k == 'bool':
            m, cons = truth, lambda g: BOOL(g)
        else:
            adt = self.pair(mu, n, self.inits[self.mus.index(mu)])
            if adt is None:
                return None
            m, cons = lambda v: is_variant(v, adt, 1), lambda g: phi([(AGG(adt, 1, ()), g), (AGG(adt, 0, ()), NOT(g))])
        return flag_split(m(n), m(mu)) + (cons, m)

    def pair(self, mu, n, init):
        adt = None
        for v in (n, init):
            for w, _ in branches(v):
                if w.k == 'agg' and w.a[0] in NVAR and len(NVAR[w.a[0]]) == 2 and not w.a[2]:
                    adt = w.a[0]
        if adt in PAIRS or adt is not None and all(w is mu or (w.k == 'agg' and not w.a[2]) for w, _ in branches(n)):
            return adt
        return None

    # values that are known at every iteration
    def simple(self, mu, n, init):
        x, S = self.x, self.S
        if n is mu:
            return init, init
        if mu in self.own:
            return None, self.own[mu]
        mus = set(self.mus)
        d = TM.sub(n, mu) if (mu in UNSIGNED or n.k in ('lin', 'int') or is_uint(strip(init))) and n.k != 'phi' else None
        if d is not None and d.k == 'int' and (is_uint(strip(init)) or strip(init) in UNSIGNED or strip(init).k == 'lin' or n.k == 'lin'):
            ixx = mk('ix', x)
            UNSIGNED.add(ixx)
            return TM.add(init, scale(ixx, d.a[0])), TM.add(init, scale(length(S), d.a[0]))
        dep = [m for m in n.fv if m in mus]
        if not dep and x not in n.fv:
            # constant after the first iteration
            first = le0(mk('ix', x))
            ne = nonempty(S)
            return phi([(init, first), (n, NOT(first))]), phi([(n, ne), (init, NOT(ne))])
        if not dep:
            last = mk('lastelem', S)
            copy_marks(x, last)
            ne = nonempty(S)
            prev = mk('prevelem', x)
            first = le0(mk('ix', x))
            return phi([(init, first), (subst(n, {x: prev}), NOT(first))]), phi([(subst(n, {x: last}), ne), (init, NOT(ne))])
        return None

    def flag(self, mu, n, init):
        """two-valued state that only moves one way"""
        x, S = self.x, self.S
        if n.k == 'bool' or init.k == 'bool':
            f = truth(n)
            a = mk('b', mu)
            if a in B.var_of:
                v = B.var_of[a]
                f1, f0 = B.assign(f, v, 1), B.assign(f, v, 0)
            else:
                f1 = f0 = f
            mk_ = lambda g: BOOL(g)
            tinit = truth(init)
            return self.mono(tinit, f0, f1, mk_)
        adt = self.pair(mu, n, init)
        if adt is None:
            return None
        f = is_variant(n, adt, 1)
        f0, f1 = flag_split(f, is_variant(mu, adt, 1))
        cons = lambda g: phi([(AGG(adt, 1, ()), g), (AGG(adt, 0, ()), NOT(g))])
        return self.mono(is_variant(init, adt, 1), f0, f1, cons)

    def mono(self, tinit, f0, f1, cons):
        x, S = self.x, self.S
        if f1 == 1:
            f0 = self.untie_guard(f0)
            return None if f0 is None else cons(OR(tinit, exists(x, S, 0, f0)))
        if f0 == 0:
            f1 = self.untie_guard(NOT(f1))
            return None if f1 is None else cons(AND(tinit, NOT(exists(x, S, 0, f1))))
        mus = set(self.mus)
        for f in (f0, f1):
            if f > 1 and any(m in mus and self.before.get(m) is None for m in bdd_fv(f)):
                return None
        f0, f1 = self.untie_guard(f0), self.untie_guard(f1)
        # set under f0, cleared under not f1; keeps its value otherwise
        keep = AND(f1, NOT(f0))
        if keep == 0 and f0 == f1:
            last = mk('lastelem', S)
            copy_marks(x, last)
            ne = nonempty(S)
            return cons(OR(AND(ne, subst_bdd(f0, {x: last})), AND(NOT(ne), tinit)))
        return None

    def untie_guard(self, f):
        """`not in the set being built` -> `not in it before the loop` when only such items are added"""
        mus = set(self.mus)
        dep = [m for m in bdd_fv(f) if m in mus] if f > 1 else []
        for mu in dep:
            if mu in self.before and self.before[mu] is not None:
                f = subst_bdd(f, {mu: self.before[mu]})
                continue
            if mu not in self.acc:
                return None
            kd, ps = self.acc[mu]
            init = self.inits[self.mus.index(mu)]
            for v in sorted(B.support(f)):
                a = B.atom_of[v]
                if mu in a.fv:
                    if a.k != 'has' or a.a[0] is not mu:
                        return None
                    # monotone trick: only in the form  c & not has(mu, key), item key added under c
                    f1, f0 = B.assign(f, v, 1), B.assign(f, v, 0)
                    if f1 != 0:
                        return None
                    key = a.a[1]
                    keys = [(p.a[0], p.a[1] if kd != 'map' else proj(p.a[1], '()', 0, 0)) for p in ps if p.k == 'item']
                    if len(keys) != len(ps) or any(kk is not key for _, kk in keys):
                        return None
                    gi = OR(*[g for g, _ in keys])
                    if AND(gi, NOT(f0)) != 0:
                        return None
                    f = AND(f0, NOT(has(init, key)))
        return f

    def idem(self, n, mu):
        if n.k == 'coll' and n.a[0] == 'set' and n.a[1] is mu:
            ps = []
            for p in n.a[2]:
                if p.k == 'item':
                    a = mk('has', mu, strip(p.a[1]))
                    if a in B.var_of and B.var_of[a] in B.support(p.a[0]):
                        v = B.var_of[a]
                        # when already present, inserting changes nothing
                        g = B.assign(p.a[0], v, 0)
                        p = mk('item', g, p.a[1])
                ps.append(p)
            return mk('coll', 'set', mu, norm_pieces('set', tuple(ps)))
        return n

    def grown(self, mu, n):
        if n.k == 'coll' and n.a[1] is mu:
            kd, base, ps = n.a
            if kd == 'map':
                ps = nest_pieces(mu, ps)
            return kd, ps
        return None

    def untie(self, mu, kd, ps, dep):
        if kd != 'set':
            return None
        out = []
        for p in ps:
            if p.k == 'item':
                g = self.untie_guard(p.a[0]) if p.a[0] > 1 else p.a[0]
                if g is None or any(m in p.a[1].fv for m in dep):
                    return None
                out.append(mk('item', g, p.a[1]))
            elif p.k == 'nest':
                g = self.untie_guard(p.a[0]) if p.a[0] > 1 else p.a[0]
                if g is None or any(m in _fvs(p.a[1:]) for m in dep):
                    return None
                out.append(mk('nest', g, *p.a[1:]))
            else:
                return None
        return tuple(out)


def flag_split(f, m):
    """f when the flag condition m (one literal) is false, and when it is true"""
    sup = list(B.support(m)) if m > 1 else []
    if len(sup) != 1:
        return f, f
    v = sup[0]
    pos = B.assign(m, v, 1) == 1
    return B.assign(f, v, 0 if pos else 1), B.assign(f, v, 1 if pos else 0)


def _fvs(x):
    return TM._fv(x)


def assume_piece(p, g):
    if p.k == 'item':
        h = B.constrain(p.a[0], g)
        return mk('item', h, restrict(p.a[1], AND(h, g)) if h else p.a[1])
    if p.k == 'nest':
        return mk('nest', B.constrain(p.a[0], g), *p.a[1:])
    return p


def nest_pieces(mu, ps):
    """entry-style updates of a multimap: k -> (old value or default) ++ pieces"""
    ps = list(ps)
    out = []
    i = 0
    while i < len(ps):
        p = ps[i]
        if p.k == 'item' and p.a[1].k == 'agg' and len(p.a[1].a[2]) == 2:
            key, val = p.a[1].a[2]
            h = mk('has', fz(mu), key)
            if h in B.var_of and B.var_of[h] in B.support(p.a[0]) or is_grown(val, mu, key):
                hv = B.var(h)
                cand = [p]
                j = i + 1
                while j < len(ps) and ps[j].k == 'item' and ps[j].a[1].k == 'agg' and len(ps[j].a[1].a[2]) == 2 and ps[j].a[1].a[2][0] is key:
                    cand.append(ps[j])
                    j += 1
                r = nest_of(mu, key, hv, cand)
                if r is not None:
                    out.append(r)
                    i = j
                    continue
        out.append(p)
        i += 1
    return tuple(out)


def is_grown(val, mu, key):
    ld = mk('load', fz(mu), key)
    for w, g in opened(val):
        if w.k == 'coll' and w.a[1] is ld:
            return True
        if w.k == 'agg' and any(x.k == 'coll' and x.a[1] is proj(ld, w.a[0], w.a[1], i) for i, x in enumerate(w.a[2])):
            return True
    return False


def frozen_nests(mu, ps):
    """in a fixed-point loop: `insert a default if absent; add to what is there`"""
    out = []
    ps = list(ps)
    i = 0
    while i < len(ps):
        p = ps[i]
        if p.k == 'for':
            out.append(mk('for', p.a[0], p.a[1], p.a[2], frozen_nests(mu, p.a[3])))
        elif p.k == 'item' and p.a[1].k == 'agg' and len(p.a[1].a[2]) == 2:
            key = p.a[1].a[2][0]
            grp = [p]
            while i + 1 < len(ps) and ps[i + 1].k == 'item' and ps[i + 1].a[1].k == 'agg' and ps[i + 1].a[1].a[2][0] is key:
                i += 1
                grp.append(ps[i])
            out += frozen_nest(mu, key, grp)
        else:
            out.append(p)
        i += 1
    return tuple(out)


def frozen_nest(mu, key, grp):
    h = mk('has', mu, key)
    if len(grp) < 2 or h not in B.var_of:
        return grp
    hv = B.var_of[h]
    d = grp[0]
    g = d.a[0]
    if hv not in B.support(g) or B.assign(g, hv, 1) != 0:
        return grp
    g = B.assign(g, hv, 0)
    D = d.a[1].a[2][1]
    ld = mk('load', mu, key)
    pp, path = [], None
    for p in grp[1:]:
        if AND(p.a[0], NOT(g)) != 0:
            return grp
        for v, gv in branches(p.a[1].a[2][1]):
            gv = B.constrain(AND(p.a[0], gv), g)
            if gv == 0:
                continue
            pth = ()
            base = ld
            if v.k == 'agg' and D.k == 'agg' and v.a[:2] == D.a[:2]:
                n = len(v.a[2])
                ch = [j for j in range(n) if v.a[2][j] is not proj(ld, v.a[0], v.a[1], j)]
                if not ch:
                    continue
                if len(ch) != 1:
                    return grp
                pth = (v.a[0], v.a[1], ch[0], n)
                base = proj(ld, v.a[0], v.a[1], ch[0])
                v = v.a[2][ch[0]]
            if v is base:
                continue
            if path is not None and pth != path or v.k != 'coll' or v.a[1] is not base or v.a[0] == 'vec':
                return grp
            path = pth
            pp += [q if gv == 1 else guard_pieces([q], gv)[0] for q in v.a[2]]
    if path is None:
        return grp
    return [mk('nest', g, key, D, tuple(pp), path)]


def opened(v):
    """what a value may be; a struct around a choice is a choice of structs"""
    out = []
    for w, g in branches(v):
        ph = [i for i, x in enumerate(w.a[2]) if x.k == 'phi'] if w.k == 'agg' else []
        if len(ph) == 1:
            i = ph[0]
            adt, var, vals = w.a
            out += [(mk('agg', adt, var, vals[:i] + (x,) + vals[i + 1:]), AND(g, h)) for x, h in vals[i].a[0] if AND(g, h)]
        else:
            out.append((w, g))
    return out


def nest_of(mu, key, hv, cand):
    ld = mk('load', fz(mu), key)
    pres, absent = [], []
    for p in cand:
        for w, g in opened(p.a[1].a[2][1]):
            gg = AND(p.a[0], g)
            if AND(gg, hv):
                pres.append((w, B.constrain(gg, hv)))
            if AND(gg, NOT(hv)):
                absent.append((w, B.constrain(gg, NOT(hv))))
    if len(pres) != 1 or len(absent) != 1:
        return None
    (pv, pg), (av, ag) = pres[0], absent[0]
    if pg != ag:
        return None
    if pv.k == 'agg' and av.k == 'agg' and pv.a[:2] == av.a[:2] and len(pv.a[2]) == len(av.a[2]):
        # a struct around the collection
        adt, var, vals = pv.a
        n = len(vals)
        ch = [i for i in range(n) if vals[i] is not proj(ld, adt, var, i)]
        if len(ch) != 1:
            return None
        j = ch[0]
        r = nest_coll(proj(ld, adt, var, j), vals[j], av.a[2][j])
        if r is None:
            return None
        d, pp = r
        return mk('nest', pg, key, AGG(adt, var, av.a[2][:j] + (d,) + av.a[2][j + 1:]), pp, (adt, var, j, n))
    r = nest_coll(ld, pv, av)
    if r is None:
        return None
    return mk('nest', pg, key, r[0], r[1], ())


def nest_coll(ld, pv, av):
    if not (pv.k == 'coll' and pv.a[1] is ld and av.k == 'coll' and av.a[0] == pv.a[0]):
        return None
    kd = pv.a[0]
    pp, ap = pv.a[2], av.a[2]
    if av.a[1] is None and ap[len(ap) - len(pp):] == pp and (kd != 'set' or set(pp) <= set(ap)):
        dflt = mk('coll', kd, None, tuple(ap[:len(ap) - len(pp)]))
    elif kd == 'set' and av.a[1] is None and set(pp) <= set(ap):
        dflt = mk('coll', kd, None, tuple(q for q in ap if q not in pp))
    else:
        return None
    return dflt, pp
