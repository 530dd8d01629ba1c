"""C30 atomicity of tree operations."""
from rules import *
import flow
import mir

LEVEL = 'proof'
TECHNIQUE = 'atomicity by reduction: lock sections counted along every path of every tree operation over the call graph with resolved closures; sections that commute with all others are identified by what they work on'
EXPLAIN = ('For every building and reading operation of the tree, the sections in which the lock is held are counted along all paths of its control flow and of what it calls, closures included. '
           'At most one of them may fail to commute with the steps of other threads: allocating a node, entering an alternative, and adding to a node made in the same operation and not yet handed out do commute (up to numbering). '
           'The state lies entirely behind the lock: no field of it is reached another way, and nothing in it changes under a shared lock. That what happens inside one section is what the operation means is decided by C15 and C16; that sections do not overlap by C14.')
T_ = 'parsers::tree'
TH, ND, AL = T_ + '::TreeHandle', T_ + '::Node', T_ + '::Alternative'
MAKERS = {TH + '::make_node', TH + '::make_alt', TH + '::make_leaf_alt', TH + '::make_branch_alt'}
ADDERS = {ND + '::add_alt', ND + '::add_all'}
TYPES = ('TreeOwner', 'TreeHandle', 'Node', 'Alternative', 'Leaf', 'Branch', 'NodeContent')
SHARED = ('std::cell::', 'std::sync::atomic::', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::OnceLock', 'std::sync::LazyLock', 'std::rc::')
MANY = 2


class Sections:
    """how many sections with the lock held a call may run through that do not commute with other threads"""

    def __init__(self, a):
        self.a, self.F, self.p = a, flow.Flow(a.p), a.p
        self.memo, self.why = {}, {}

    def count(self, name, env, base=False):
        k = (name, frozenset(env.items()), base)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = MANY         # recursion
        b = self.p.bodies[name]
        cost, where = {}, {}
        for i, t, fd in self.F.calls(name, env):
            if b['blocks'][i]['cleanup']:
                continue
            c = self.cost(name, b, env, i, t, fd, base)
            if c:
                cost[i] = c
                where[i] = '%s (%s)' % ((fd.get('res') or fd['fn']) if fd else 'a function value', b['blocks'][i].get('at') or b['span'])
        best, path = 0, []
        cfg = mir.CFG(b)
        for h, L in cfg.loops.items():
            if [i for i in L if i in cost]:
                best, path = MANY, [where[i] + ' again and again' for i in sorted(L) if i in cost][:1]
        if best < MANY and cost:
            far = {}
            for n in reversed(cfg.rpo):
                m, q = 0, []
                for s in cfg.succ[n]:
                    if cfg.pos[s] > cfg.pos[n] and far.get(s, (0,))[0] > m:
                        m, q = far[s]
                far[n] = (m + cost.get(n, 0), ([where[n]] if n in cost else []) + q)
            best, path = far[0]
        self.memo[k] = min(best, MANY)
        self.why[k] = path
        return self.memo[k]

    def cost(self, name, b, env, i, t, fd, base):
        if fd is None:
            return 0
        fn = fd.get('res') or fd['fn']
        if fn in flow.BLOCKING or fn in ('std::sync::RwLock::try_read', 'std::sync::RwLock::try_write', 'std::sync::RwLock::get_mut', 'std::sync::RwLock::into_inner', 'std::sync::RwLock::data_ptr'):
            return 1
        if not base:
            if fn in MAKERS:
                return 0
            if fn in ADDERS and self.fresh(b, i, t):
                return 0
        bodies, foreign, targs = self.F.targets(fd, env)
        direct = len(bodies) == 1 and (fn == bodies[0][0] or fd.get('trait', '').startswith('std::ops::Fn'))
        once = fn.startswith(('std::option::Option::', 'std::result::Result::', 'std::mem::', 'std::ops::Fn'))
        s = 0
        for n, e in bodies:
            if n in self.p.bodies:
                c = self.count(n, e, base)
                if c:
                    s += c if direct or once else MANY
        return min(s, MANY)

    def fresh(self, b, i, t):
        """the receiver was made in this body by make_node, and until now only added to"""
        l = self.origin(b, t['args'][0])
        if l is None:
            return False
        makes = [bl['t'] for bl in b['blocks'] if bl['t']['k'] == 'call' and bl['t']['dest'][0] == l and not bl['t']['dest'][1]]
        defs = [s for bl in b['blocks'] for s in bl['s'] if s[0] == '=' and s[1][0] == l]
        if len(makes) != 1 or defs:
            return False
        f = makes[0]['func'][1]['fndef'] if makes[0]['func'][0] == 'k' and 'fndef' in makes[0]['func'][1] else None
        if not f or (f.get('res') or f['fn']) != TH + '::make_node':
            return False
        for j, bl in enumerate(b['blocks']):
            u = bl['t']
            if bl['cleanup'] or u['k'] != 'call' or u is makes[0]:
                continue
            f = u['func'][1]['fndef'] if u['func'][0] == 'k' and 'fndef' in u['func'][1] else None
            for n, x in enumerate(u['args']):
                if self.origin(b, x) == l and not (f and (f.get('res') or f['fn']) in ADDERS and n == 0):
                    return False
        return True

    def origin(self, b, op):
        """the local a reference or copy comes from"""
        if op[0] not in 'mc':
            return None
        l = op[1][0]
        for _ in range(10):
            defs = [s for bl in b['blocks'] for s in bl['s'] if s[0] == '=' and s[1][0] == l and not s[1][1]]
            if not defs:
                return l
            if len(defs) > 1:
                return None
            r = defs[0][2]
            if r[0] == 'ref':
                l = r[2][0]
            elif r[0] == 'use' and r[1][0] in 'mc':
                l = r[1][1][0]
            else:
                return l
        return None


def operations(a):
    out = []
    for n, b in sorted(a.p.bodies.items()):
        if b['kind'] == 'fn' and (b['exported'] or b['reachable']) and any(n.startswith('%s::%s::' % (T_, t)) for t in TYPES) and not n.endswith('::to_dot'):
            out.append(n)
    return out


def atomic(a):
    S = Sections(a)
    ops = operations(a)
    a.ob('the operations of the tree are found', len(ops) >= 8, T_, str(ops))
    k = 0
    for n in ops:
        c = S.count(n, {})
        w = S.why.get((n, frozenset(), False), [])
        k += bool(c)
        a.fns.add(n)
        a.ob('an operation takes effect in one step', c <= 1, n, 'takes the lock more than once, and others may come between: ' + ', then '.join(w))
    for n in sorted(MAKERS):
        if a.has(n):
            c = S.count(n, {}, True)
            w = S.why.get((n, frozenset(), True), [])
            a.ob('making a part takes effect in one step', c <= 1, n, 'takes the lock more than once, and others may come between: ' + ', then '.join(w))
    a.ob('some operations take the lock', k >= 3, T_, '%d' % k)
    a.note('%d operations, %d with a section that others notice; %d function instances walked' % (len(ops), k, len(S.memo)))
    a.sites += len(S.memo)


def behind(a):
    """the state is reached through the lock only, and is plain data"""
    F = flow.Flow(a.p)
    lock = F.ty(a.p.adts[TH]['variants'][0]['fields'][0]['ty'], {})
    state = None
    for x in F.parts(lock):
        if x[0] == 'adt' and x[1] == 'std::sync::RwLock':
            state = x[2][0]
    a.ob('a handle reaches the tree through its lock', state is not None and state[0] == 'adt' and len(a.p.adts[TH]['variants'][0]['fields']) == 1, TH, str(lock)[:200])
    if state is None:
        return
    seen, todo = set(), [state]
    while todo:
        t = todo.pop()
        for x in F.parts(t):
            if x[0] == 'adt':
                a.ob('what the lock guards changes only under it', not x[1].startswith(SHARED), state[1], 'holds a %s' % x[1], key='shared|' + x[1])
                d = a.p.adts.get(x[1])
                if d and d.get('local') and x[1] not in seen:
                    seen.add(x[1])
                    for v in d['variants']:
                        for f in v['fields']:
                            if isinstance(f.get('ty'), int):
                                todo.append(F.ty(f['ty'], {}))
            elif x[0] == 'ptr':
                a.ob('what the lock guards changes only under it', False, state[1], 'holds a raw pointer')
    for n, d in a.p.adts.items():
        if d.get('local') and n.startswith(T_):
            for v in d['variants']:
                for f in v['fields']:
                    if isinstance(f.get('ty'), int) and n not in seen:
                        bad = [x[1] for x in F.parts(F.ty(f['ty'], {})) if x[0] == 'adt' and x[1].startswith(SHARED) and x[1] != 'std::sync::RwLock']
                        a.ob('handles hold no state of their own that changes', not bad, n, '%s: %s' % (f['name'], bad), key='own|%s|%s' % (n, f['name']))


RULES = [('sections', atomic), ('state behind the lock', behind)]
