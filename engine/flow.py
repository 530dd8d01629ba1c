"""Calls and lock guards over the MIR of the crate: a walk of the call graph with resolved types,
closures and trait implementations, and a dataflow of the locals that hold a lock guard."""
from mir import *

GUARDS = ('std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard', 'std::sync::MutexGuard', 'std::sync::MappedRwLockReadGuard',
          'std::sync::MappedRwLockWriteGuard', 'std::sync::MappedMutexGuard', 'std::sync::ReentrantLockGuard')
BLOCKING = ('std::sync::RwLock::read', 'std::sync::RwLock::write', 'std::sync::Mutex::lock', 'std::sync::ReentrantLock::lock')
WAITING = ('std::sync::Condvar::', 'std::sync::Barrier::', 'std::sync::mpsc::', 'std::thread::', 'std::sync::Once::', 'std::sync::OnceLock::', 'std::sync::LazyLock::')
# what implementations of the value types may do is assumed not to involve the tree they are stored in
VALUE_TRAITS = ('std::cmp::', 'std::clone::Clone', 'std::fmt::', 'std::hash::', 'std::ops::Drop', 'std::convert::AsRef', 'std::borrow::', 'std::default::', 'std::marker::', 'std::string::ToString')


class Flow:
    def __init__(self, p, guards=GUARDS):
        self.p = p
        self.guards = guards
        self.memo = {}
        self.closures = {n: b for n, b in p.bodies.items() if b['kind'] != 'fn'}

    # types with closures that remember the types around them
    def ty(self, i, env):
        t = self.p.tys[i]
        k = t['k']
        f = lambda j: self.ty(j, env)
        if k == 'adt':
            return ('adt', t['def'], tuple(f(x) for x in t['args']))
        if k == 'ref':
            return ('ref', t['mut'], f(t['of']))
        if k == 'ptr':
            return ('ptr', f(t['of']))
        if k == 'param':
            return env.get(t['name'], ('param', t['name']))
        if k == 'tuple':
            return ('tuple', tuple(f(x) for x in t['of']))
        if k == 'closure':
            return ('closure', t['def'], frozenset(env.items()))
        if k == 'fndef':
            return ('fndef', t['def'], tuple(f(x) for x in t['args']))
        if k in ('slice', 'array'):
            return (k, f(t['of']))
        if k == 'never':
            return ('never',)
        if k == 'alias' and t.get('proj'):
            return ('proj', t['proj'], tuple(f(x) for x in t['args']))
        return (k, t.get('str', ''))

    def parts(self, t):
        """all types inside a type"""
        out = [t]
        if t[0] in ('adt', 'fndef', 'proj'):
            for x in t[2]:
                out += self.parts(x)
        elif t[0] == 'ref':
            out += self.parts(t[2])
        elif t[0] in ('ptr', 'slice', 'array'):
            out += self.parts(t[1])
        elif t[0] == 'tuple':
            for x in t[1]:
                out += self.parts(x)
        return out

    def guard(self, t, seen=()):
        """does a value of this type own a lock guard"""
        if t[0] == 'adt':
            if t[1] in self.guards:
                return True
            if any(self.guard(x, seen) for x in t[2]):
                return True
            a = self.p.adts.get(t[1])
            if a and a.get('local') and t[1] not in seen:
                for v in a['variants']:
                    for f in v['fields']:
                        if isinstance(f.get('ty'), int) and self.guard(self.ty(f['ty'], {}), seen + (t[1],)):
                            return True
            return False
        if t[0] == 'tuple':
            return any(self.guard(x, seen) for x in t[1])
        if t[0] in ('slice', 'array'):
            return self.guard(t[1], seen)
        if t[0] == 'closure':
            b = self.p.bodies.get(t[1])
            for u in (b or {}).get('upvars') or ():
                i = u['ty'] if isinstance(u, dict) else u
                if isinstance(i, int) and self.guard(self.ty(i, dict(t[2])), seen):
                    return True
        return False

    # ------------------------------------------------------ resolution
    def targets(self, fd, env):
        """[(body, env)] a call may run in this crate, [opaque description] for code of the caller"""
        p = self.p
        targs = tuple(self.ty(a, env) for a in fd['args'])
        bodies, foreign = [], []
        fn = fd['fn']
        if fd.get('ctor'):
            return bodies, foreign, targs
        if fd.get('res') and fd.get('rlocal') and fd['res'] in p.bodies:
            b = p.bodies[fd['res']]
            bodies.append((fd['res'], dict(zip(b.get('generics') or [], (self.ty(a, env) for a in fd.get('rargs', []))))))
        elif not fd.get('trait') and fn in p.bodies:
            bodies.append((fn, dict(zip(p.bodies[fn].get('generics') or [], targs))))
        elif fd.get('trait'):
            st = targs[0] if targs else ('?',)
            while st[0] == 'ref':
                st = st[2]
            meth = fn.split('::')[-1]
            while st[0] == 'proj' and st[2]:
                st = st[2][0]
                while st[0] == 'ref':
                    st = st[2]
            if st[0] == 'closure':
                bodies.append((st[1], dict(st[2])))
            elif st[0] == 'fndef':
                if st[1] in p.bodies:
                    bodies.append((st[1], dict(zip(p.bodies[st[1]].get('generics') or [], st[2]))))
            elif st[0] in ('param', 'dyn', 'alias'):
                foreign.append((fd['trait'], meth, st))
                if fn in p.bodies:
                    bodies.append((fn, dict(zip(p.bodies[fn].get('generics') or [], targs))))
            elif not fd.get('res'):
                for n in p.trait_impls.get((fd['trait'], meth), ()):
                    b = p.bodies[n]
                    s = {}
                    ta = [self.ty(x, {}) for x in b['trait_args']]
                    if len(ta) <= len(targs) and all(unify(x, y, s) for x, y in zip(ta, targs)):
                        own = list(targs[len(ta):])
                        bodies.append((n, {g: s[g] if g in s else own.pop(0) if own else ('param', g) for g in b.get('generics') or []}))
                if fn in p.bodies:
                    bodies.append((fn, dict(zip(p.bodies[fn].get('generics') or [], targs))))
                if not bodies and st[0] not in ('adt', 'tuple', 'slice', 'array', 'other', 'never', 'ptr'):
                    foreign.append((fd['trait'], meth, st))
        if not bodies:
            # library code: runs the functions and the trait implementations it is instantiated with
            for t in targs:
                for x in self.parts(t):
                    if x[0] == 'closure':
                        bodies.append((x[1], dict(x[2])))
                    elif x[0] == 'fndef' and x[1] in p.bodies:
                        bodies.append((x[1], dict(zip(p.bodies[x[1]].get('generics') or [], x[2]))))
                    elif x[0] == 'adt' and p.adts.get(x[1], {}).get('local'):
                        bodies += [(n, dict(zip(p.bodies[n].get('generics') or [], x[2]))) for n in self.impls_of(x[1])
                                   # hashing happens only where it is asked for
                                   if 'std::hash::Hash' != p.bodies[n]['trait'] or 'std::hash::Hash' in fd.get('bounds', ['std::hash::Hash'])]
                    elif x[0] in ('param', 'dyn', 'alias'):
                        foreign.append((None, fn, x))
        return bodies, foreign, targs

    def impls_of(self, adt):
        m = self.memo.setdefault('impls', {})
        if adt not in m:
            m[adt] = [n for n, b in self.p.bodies.items() if b['kind'] == 'fn' and b.get('trait') and b.get('self_name') == adt]
        return m[adt]

    def calls(self, name, env):
        """(block, terminator, fndef or None, fn) of a body"""
        for i, bl in enumerate(self.p.bodies[name]['blocks']):
            t = bl['t']
            if t['k'] == 'call':
                f = t['func']
                yield i, t, (f[1]['fndef'] if f[0] == 'k' and 'fndef' in f[1] else None)


def place(op):
    return op[1] if op[0] in ('m', 'c') else None


class Guards:
    """may-analysis: which locals own a guard at the end of each block's statements"""

    def __init__(self, F, name, env):
        self.F, self.name, self.env = F, name, env
        b = F.p.bodies[name]
        self.b = b
        self.has = [F.guard(F.ty(l['ty'], env)) for l in b['locals']]
        self.tys = [F.ty(l['ty'], env) for l in b['locals']]
        self.at = {}
        if not any(self.has):
            return
        inn = {0: frozenset(i for i in range(1, b['nargs'] + 1) if self.has[i])}
        todo = [0]
        while todo:
            n = todo.pop()
            bl = b['blocks'][n]
            s = set(inn[n])
            for st in bl['s']:
                self.stmt(st, s)
            self.at[n] = frozenset(s)
            for succ, out in self.term(bl['t'], s):
                o = inn.get(succ)
                new = frozenset(out) if o is None else o | out
                if new != o:
                    inn[succ] = new
                    todo.append(succ)

    def moved(self, op, s):
        if op[0] == 'm' and not op[1][1] and op[1][0] in s:
            s.discard(op[1][0])
            return True
        return False

    def rv(self, rv, s):
        k = rv[0]
        if k == 'use' or k == 'cast' or k == 'repeat':
            for x in rv[1:]:
                if isinstance(x, list) and x and x[0] in ('m', 'c'):
                    self.moved(x, s)
        elif k == 'agg':
            for x in rv[2]:
                self.moved(x, s)

    def stmt(self, st, s):
        if st[0] == '=':
            self.rv(st[2], s)
            d = st[1]
            if self.has[d[0]]:
                if not d[1] or st[2][0] in ('use', 'agg'):
                    s.add(d[0])
        elif st[0] == 'dead':
            s.discard(st[1])

    def term(self, t, s):
        k = t['k']
        b = self.b['blocks']
        if k == 'call':
            s = set(s)
            for x in t['args']:
                self.moved(x, s)
            if self.has[t['dest'][0]]:
                s.add(t['dest'][0])
        elif k == 'drop':
            s = set(s)
            if not t['place'][1]:
                s.discard(t['place'][0])
        return [(n, frozenset(s)) for n in succs(t) if n is not None and not b[n]['cleanup']]


class LockCheck:
    """no lock is requested, nothing waits and no code of the caller runs while a guard is held"""

    def __init__(self, p):
        self.F = Flow(p)
        self.p = p
        self.done = {}
        self.bad = []
        self.acquired = set()
        self.regions = 0
        self.undercalls = 0
        self.bodies = set()

    def roots(self):
        return [n for n, b in self.p.bodies.items() if b['kind'] == 'fn' and (b['reachable'] or b['exported'] or b.get('trait'))]

    def run(self):
        for n in self.roots():
            self.visit(n, {}, None, (n,))

    def fz(self, env):
        return frozenset(env.items())

    def visit(self, name, env, held, path):
        """held: parameters of the guarded content when a guard is held by a caller"""
        if len(path) > 40:
            return
        k = (name, self.fz(env), held)
        if k in self.done:
            return
        self.done[k] = True
        self.bodies.add(name)
        b = self.p.bodies[name]
        g = Guards(self.F, name, env)
        for i, t, fd in self.F.calls(name, env):
            own = g.at.get(i, frozenset())
            if b['blocks'][i]['cleanup']:
                continue
            # guards handed over with the call are the callee's
            given = {x[1][0] for x in t['args'] if x[0] == 'm' and not x[1][1]}
            own = own - given
            h = held
            if own:
                self.regions += 1
                h = frozenset(x for l in own for x in self.F.parts(g.tys[l]) if x[0] == 'param')
                if held is not None:
                    h = h | held
            at = b['blocks'][i].get('at') or b['span']
            self.call(name, env, t, fd, h, path, at)
            if given and fd and any(g.has[l] for l in given) and ('forget' in fd['fn'] or 'ManuallyDrop' in fd['fn'] or 'leak' in fd['fn']):
                self.bad.append((name, at, 'a guard is never released (%s)' % fd['fn'], path))

    def call(self, name, env, t, fd, held, path, at):
        F = self.F
        if fd is None:
            # call of a function value
            if held is not None:
                self.bad.append((name, at, 'calls a function value while the lock is held', path))
            return
        fn = fd.get('res') or fd['fn']
        if fn in BLOCKING:
            self.acquired.add((name, at))
            if held is not None:
                self.bad.append((name, at, 'requests a lock (%s) while one is held' % fn, path))
            return
        if held is not None and fn.startswith(WAITING):
            self.bad.append((name, at, 'waits (%s) while the lock is held' % fn, path))
        bodies, foreign, targs = F.targets(fd, env)
        if held is not None:
            self.undercalls += 1
            for tr, meth, st in foreign:
                if st in held and (tr is None or tr.startswith(VALUE_TRAITS)):
                    continue
                if tr is not None and tr.startswith(VALUE_TRAITS):
                    continue
                if tr is None and fd['fn'].startswith(('std::mem::', 'std::option::Option::', 'std::result::Result::', 'std::convert::')) and not any(x[0] in ('closure', 'fndef') for y in targs for x in F.parts(y)):
                    continue
                self.bad.append((name, at, 'runs code of the caller (%s of %s) while the lock is held' % (meth, show_ty(st)), path))
        for n, e in bodies:
            if n in self.p.bodies:
                self.visit(n, e, held, path + (n,))


class BorrowCheck(LockCheck):
    """no cell is borrowed again, and no foreign trait method or function value runs, while a borrow of a cell is held"""

    def __init__(self, p, roots):
        LockCheck.__init__(self, p)
        self.F = Flow(p, ('std::cell::Ref', 'std::cell::RefMut'))
        self.rs = roots

    def roots(self):
        return self.rs

    def call(self, name, env, t, fd, held, path, at):
        F = self.F
        if fd is None:
            if held is not None:
                self.bad.append((name, at, 'calls a function value while a borrow is held', path))
            return
        fn = fd.get('res') or fd['fn']
        if fn in ('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut', 'std::cell::RefCell::replace', 'std::cell::RefCell::take', 'std::cell::RefCell::swap'):
            self.acquired.add((name, at))
            if held is not None:
                self.bad.append((name, at, 'borrows (%s) while a borrow is held' % fn, path))
            return
        bodies, foreign, targs = F.targets(fd, env)
        if held is not None:
            self.undercalls += 1
            for tr, meth, st in foreign:
                if tr is not None and not tr.startswith(VALUE_TRAITS + ('std::any::', 'std::error::')):
                    self.bad.append((name, at, 'runs %s of %s while a borrow is held' % (meth, show_ty(st)), path))
        for n, e in bodies:
            if n in self.p.bodies:
                self.visit(n, e, held, path + (n,))


def show_ty(t):
    if t[0] == 'param':
        return t[1]
    if t[0] == 'adt':
        return short(t[1]) + ('<%s>' % ', '.join(show_ty(x) for x in t[2]) if t[2] else '')
    return str(t[1] if len(t) > 1 else t[0])[:60]
