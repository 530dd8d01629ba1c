"""What the guards `some element satisfies c, none before it stop` over one sequence say about each other.

Every such guard is a finite automaton over the elements; the combinations of their answers that some sequence gives are enumerated."""
from terms import B, AND, OR, NOT, subst_bdd
import terms as TM

_memo = {}


def answers(group, depth):
    """the constraint on the guards [(atom, var)] over one sequence"""
    vs = [v for v, _ in group]
    parts = []
    elem = 1
    var0 = group[0][1].a[0]
    for v, x in group:
        var, src, stop, c = x.a
        if var is not var0:
            stop, c = subst_bdd(stop, {var: var0}), subst_bdd(c, {var: var0})
        parts.append((c, stop))
    d = 0
    for c, s in parts:
        d = d or c > 1 or s > 1
    if depth:
        sup = set()
        for c, s in parts:
            for f in (c, s):
                if f > 1:
                    sup |= set(B.support(f))
        elem = facts(frozenset(sup), depth - 1)
    n = len(parts)
    start = (0,) * n                       # 0 open, 1 found, 2 stopped
    seen, todo = {start}, [start]

    def steps(st, i, g, acc):
        if g == 0:
            return
        if i == n:
            nx = tuple(acc)
            if nx not in seen:
                seen.add(nx)
                todo.append(nx)
            return
        if st[i]:
            return steps(st, i + 1, g, acc + [st[i]])
        c, s = parts[i]
        steps(st, i + 1, AND(g, c), acc + [1])
        g = AND(g, NOT(c))
        steps(st, i + 1, AND(g, s), acc + [2])
        steps(st, i + 1, AND(g, NOT(s)), acc + [0])
    while todo:
        if len(seen) > 400:
            return 1
        steps(todo.pop(), 0, elem, [])
    r = 0
    for st in seen:
        r = OR(r, AND(*[B.node(v, 0, 1) if q == 1 else B.node(v, 1, 0) for v, q in zip(vs, st)]))
    return r


def facts(support, depth=3):
    """facts about the guards with these variables that hold whatever the sequences are"""
    by = {}
    f = 1
    for v in support:
        x = B.atom_of[v]
        if x.k == 'exists':
            by.setdefault(x.a[1], []).append((v, x))
        elif x.k == 'has' and x.a[0].k == 'load':
            f = AND(f, OR(B.node(v, 1, 0), TM.has(x.a[0].a[0], x.a[0].a[1])))
    # a member that meets the condition is a witness
    for v in support:
        x = B.atom_of[v]
        if x.k == 'has' and x.a[0] in by:
            for w, e in by[x.a[0]]:
                var, _, stop, c = e.a
                if stop == 0:
                    f = AND(f, OR(B.node(v, 1, 0), NOT(subst_bdd(c, {var: x.a[1]})), B.node(w, 0, 1)))
    for src, group in by.items():
        if not 2 <= len(group) <= 6:
            continue
        group.sort(key=lambda q: q[0])
        key = (tuple(v for v, _ in group), depth)
        r = _memo.get(key)
        if r is None:
            r = _memo[key] = answers(group, depth)
        f = AND(f, r)
    return f


def differ(f, g):
    """can f and g differ?"""
    d = OR(AND(f, NOT(g)), AND(NOT(f), g))
    if d == 0:
        return False
    return AND(d, facts(frozenset(B.support(f)) | frozenset(B.support(g)) if f > 1 and g > 1 else B.support(d))) != 0
