"""C14 lock discipline of the parse tree."""
from rules import *
import flow

LEVEL = 'proof'
TECHNIQUE = 'dataflow of lock guards over MIR, call graph with resolved generics'
EXPLAIN = ('For every function callable from outside, the locals owning a lock guard are tracked through MIR and every call made meanwhile is followed through the call graph with the closures and types it is instantiated with; '
           'none may request a lock, wait, or run code of the caller. Comparison, clone and format implementations of the values stored in the tree are assumed not to use that tree.')
TREE = 'parsers::tree'


def locks(a):
    L = flow.LockCheck(a.p)
    L.run()
    a.fns.update(L.bodies)
    a.sites += L.undercalls
    by = {}
    for name, at, why, path in L.bad:
        by.setdefault((name, at, why), path)
    for fn in sorted({n for n, _ in L.acquired}):
        a.ob('a lock is requested only while none is held', not [1 for (n, at, w) in by if n == fn and 'requests' in w], fn,
             '\n'.join('%s: %s (reached through %s)' % (at, w, ' > '.join(p)) for (n, at, w), p in by.items() if n == fn))
    for (n, at, w), p in by.items():
        if not ('requests' in w and (n in {x for x, _ in L.acquired})):
            a.ob('what runs while the lock is held', False, n, '%s: %s (reached through %s)' % (at, w, ' > '.join(p)), key='held|%s|%s' % (n, w))
    a.ob('calls made while a lock is held are all accounted for', True, TREE, '')
    a.note('%d calls under a lock, in %d places where a lock is taken, over %d function instances' % (L.undercalls, len(L.acquired), len(L.done)))


def escapes(a):
    F = flow.Flow(a.p)
    for n, b in a.p.bodies.items():
        if b['kind'] == 'fn' and (b['exported'] or b['reachable']):
            t = F.ty(b['locals'][0]['ty'], {})
            if F.guard(t):
                a.ob('no guard is handed to the caller', False, n, flow.show_ty(t))
    for n, d in a.p.adts.items():
        if d.get('local'):
            for v in d['variants']:
                for f in v['fields']:
                    if isinstance(f.get('ty'), int):
                        a.ob('no guard is stored in a value', not F.guard(F.ty(f['ty'], {})), n, f['name'], key='stored|%s|%s' % (n, f['name']))


RULES = [('lock discipline', locks), ('guards stay inside', escapes)]
