"""C09 passes of a context."""
from rules import *
from props.gram import *
import tmap
import flow

LEVEL = 'proof'
TECHNIQUE = 'function summary from MIR with the pass as an arbitrary function that may use the context; dataflow of borrow guards over MIR; no execution, no solver'
EXPLAIN = ('Requesting a pass is summarised from MIR for any content of the context and any behaviour of the pass, which may itself use the context: what is stored, returned, run and removed is compared case by case '
           '(already there, being computed, absent with success, absent with failure). That the marker stored meanwhile is recognised by the recursion test is checked by putting it into the condition of that test. '
           'No borrow of the context may be held while the pass runs.')
PC = 'grammar::passes::PassContext'
KEY = mk('call', 'typeid', (SYM("tid:('param', 'P')"),))
PTY = ('param', 'P')


def istype(v, want):
    v = strip(v)
    if v.k == 'phi':
        return OR(*[AND(g, istype(w, want)) for w, g in v.a[0]])
    if v.k == 'agg':
        return 1 if want[0] == 'adt' and want[1] == v.a[0] else 0
    if v.k == 'fld' and v.a[0].k == 'call' and v.a[0].a[0] == 'run_pass':
        return 1 if want == PTY else 0
    return B.var(mk('b', mk('istype', v, str(want))))


def downcast(M, c, a, i):
    """a value of dynamic type, as one of the type asked for"""
    want = i.targs[-1] if i.fd['fn'].startswith('std::rc::Rc') else i.targs[0]
    if want == ('adt', 'std::alloc::Global', ()):
        want = i.targs[0]
    g = istype(M.snap(c, a[0]), want)
    if i.fd['fn'].endswith('downcast'):
        return phi([(OK(a[0]), g), (ERR(a[0]), NOT(g))])
    if i.fd['fn'].endswith('::is'):
        return BOOL(g)
    return std.OPTG(g, a[0])


def of(M, c, a, i):
    t = i.targs[0] if i.targs else None
    return mk('call', 'typeid', (SYM('tid:' + str(t)),))


def cell(a, ctx):
    for j, n in enumerate(fields(a.p, PC)):
        x = a.p.tys[a.p.adts[PC]['variants'][0]['fields'][j]['ty']]
        if x['k'] == 'adt' and x['def'] == 'std::cell::RefCell':
            return strip(proj(ctx, PC, 0, j))
    raise Missing('results kept in the context')


class Run:
    def __init__(self, a):
        self.a = a

    def __call__(self, M, c, args, i):
        """any pass: it may request others from the context"""
        ctx = strip(M.val(c, args[0]))
        root = ('C', cell(self.a, ctx))
        m = strip(mget(c.mem, root))
        tr = mget(c.mem, ('TR',))
        after = call('passes after', (SYM('any'),))
        KIND[after] = 'map'
        mem = dict(c.mem)
        mem[('TR',)] = coll('vec', tr, items(TUP(ctx, m, SYM('tid:' + str(i.targs[0])))))
        mem[root] = after
        c.mem = mem
        return call('run_pass', (ctx,))


def get_pass(a):
    f = PC + '::get_pass'
    ctx = SYM('ctx')
    con = {'std::any::TypeId::of': of, 'grammar::passes::Pass::run_pass': Run(a)}
    for n in ('std::rc::Rc::downcast', 'std::boxed::Box::downcast', 'dyn std::any::Any::downcast_ref', 'dyn std::any::Any::downcast_mut', 'dyn std::any::Any::is'):
        con[n] = downcast
    S = a.S(f, con, [ctx], key='c09')
    root = ('C', cell(a, ctx))
    m = mget({}, root)
    KIND[m] = 'map'
    there = has(m, KEY)
    old = load(m, KEY)
    end = strip(mget(S.mem, root))
    tr = strip(mget(S.mem, ('TR',)))
    runs = [(p.a[0], p.a[1]) for p in as_pieces(tr) if p.k == 'item']
    if not a.ob('a pass is run in one place', len(runs) == 1, f, show(tr)[:400]):
        return
    g, t = runs[0]
    pc, pm, pt = t.a[2]
    pm = given(strip(pm), NOT(there))
    a.iff('a pass is run exactly when it has no result yet', f, g, NOT(there), S.surv)
    a.ob('the pass run is the one requested', pt is SYM("tid:('param', 'P')"), f, show(pt))
    a.same('a pass is run in this context', f, pc, ctx)
    rec = OR(*[q[0] for q in S.panics if not refers(q[0], 'run_pass') and not refers(q[0], 'passes after') and AND(q[0], there)])
    # nothing but a marker and results of the pass itself is kept under its key
    own = istype(old, PTY)
    every = [q[0] for q in S.panics] + [S.surv] + [h for v in (S.val, end, tr) if v.k == 'phi' for _, h in v.a[0]]
    own = AND(own, *[NOT(h) for h in others(every, old, own)])
    # requests made by the pass itself
    a.ob('a pass that requests itself is stopped', replaced(AND(rec, there), m, pm) == 1, f, 'with %s: %s' % (show(pm)[:300], show_bdd(replaced(AND(rec, there), m, pm))))
    a.never('a request of a result does not panic', f, AND(OR(*[q[0] for q in S.panics]), there, own))
    q = SYM('anypass')
    a.iff('while a pass runs, the results of others are kept', f, has(pm, q), OR(has(m, q), eq(q, KEY)), NOT(there))
    o = AND(has(m, q), NOT(eq(q, KEY)), NOT(there))
    a.same('while a pass runs, the results of others stay', f, restrict(load(pm, q), o), restrict(load(m, q), o), o)
    fine = AND(there, own)
    a.same('a pass that has a result gives it', f, restrict(S.val, fine), restrict(OK(old), fine), fine)
    a.same('a result that was there stays', f, restrict(end, fine), restrict(m, fine), fine)
    r = call('run_pass', (ctx,))
    aft = call('passes after', (SYM('any'),))
    okr = AND(NOT(there), is_variant(r, RES, 0))
    val = proj(r, RES, 0, 0)
    a.iff('a request succeeds when the pass does', f, is_variant(S.val, RES, 0), is_variant(r, RES, 0), NOT(there))
    a.same('the result of a pass is given', f, proj(restrict(S.val, okr), RES, 0, 0), val, okr)
    a.iff('the result of a pass is kept', f, has(end, q), OR(has(aft, q), eq(q, KEY)), okr)
    a.same('the result of a pass is kept under its own key', f, restrict(load(restrict(end, okr), KEY), okr), val, okr)
    o = AND(okr, has(aft, q), NOT(eq(q, KEY)))
    a.same('the results of other passes stay', f, restrict(load(restrict(end, okr), q), o), restrict(load(aft, q), o), o)
    bad = AND(NOT(there), NOT(is_variant(r, RES, 0)))
    a.same('the error of a pass is given', f, proj(restrict(S.val, bad), RES, 1, 0), proj(r, RES, 1, 0), bad)
    a.iff('a failed pass leaves nothing behind', f, has(restrict(end, bad), q), AND(has(aft, q), NOT(eq(q, KEY))), bad)
    o = AND(bad, has(aft, q), NOT(eq(q, KEY)))
    a.same('a failed pass leaves other results alone', f, restrict(load(restrict(end, bad), q), o), restrict(load(aft, q), o), o)
    a.never('a pass that was run does not make the request panic', f, OR(*[x[0] for x in S.panics if AND(x[0], NOT(there))]))
    f = PC + '::new'
    c = SYM('g')
    v = a.app(f, c)
    e = strip(mget({}, ('C', cell(a, v)))) if cell(a, v).k != 'agg' else strip(cell(a, v).a[2][0])
    a.same('a new context has no results', f, e, EMPTYC('map'))
    a.same('a new context is one of the given grammar', f, strip(a.app(PC + '::grammar', v)), c)


def refers(g, name):
    return any(t.k == 'call' and t.a[0] == name for t in subterms(BOOL(g)))


def others(gs, old, own):
    """tests of what is stored under the key for other types"""
    out = {B.var(x) for g in gs for x in B.atoms(g) if x.k == 'b' and x.a[0].k == 'istype' and x.a[0].a[0] is old}
    return [h for h in out if h != own]


def replaced(g, m, n):
    """g with another content of the context"""
    g = truth(TM.replace_term(BOOL(g), m, n))
    for x in list(B.atoms(g)):
        if x.k == 'b' and x.a[0].k == 'istype' and x.a[0].a[0].k == 'agg':
            v, w = x.a[0].a
            h = 1 if w == str(('adt', v.a[0], ())) else 0
            g = B.compose(g, lambda y: h if y is x else B.var(y))
    return g


def borrows(a):
    L = flow.BorrowCheck(a.p, a.find(lambda n, b: n.startswith(PC + '::') and b['kind'] == 'fn'))
    L.run()
    a.fns.update(L.bodies)
    a.sites += L.undercalls
    for (n, at, w, path) in L.bad:
        a.ob('no borrow of the results is held while a pass runs', False, n, '%s: %s (reached through %s)' % (at, w, ' > '.join(path)), key='held|%s|%s' % (n, w))
    a.ob('no borrow of the results is held while a pass runs', True, PC + '::get_pass')
    a.note('%d places where results are borrowed, %d calls meanwhile' % (len(L.acquired), L.undercalls))


RULES = [('requests', get_pass), ('borrows', borrows)]
