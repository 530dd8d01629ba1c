"""C07 first sets."""
from rules import *
from props.gram import *
from props.sets import *
from props.c06 import each_prod, elems_of
import props.rel_collect as RC

LEVEL = 'proof'
TECHNIQUE = 'fixed-point loop summaries from MIR: the rules a saturation loop applies are extracted and compared with the definition; no execution, no solver'
EXPLAIN = ('The pass is summarised from MIR for an arbitrary grammar, with collecting maps as relations (C22) and the results of other passes as given (C06, C09). Its loop is accepted only if it repeats exactly '
           'while some set grew, so that its result is the least solution of the rules it applies; these rules are compared with the definition of first sets, and the recorded sets with that solution.')
FI = PASSES + 'firsts::Firsts'


def check(a):
    b = Gram(a)
    f = a.impl(FI, 'grammar::passes::Pass', 'run_pass')
    ctx = SYM('ctx')
    g = strip(a.app(PC + '::grammar', ctx))
    S = a.S(f, RC.CONTRACTS, [ctx], key='c07')
    s = saturation(a, S, f)
    if s is None:
        return
    F, mu, ps = s
    q = TUP(SYM('anynt'), SYM('anyterm'))
    nul = lambda n: truth(a.app(NU + '::is_nullable', result(NU, ctx), n))
    N_, T_ = evar(a, EL, 'NonTerm'), evar(a, EL, 'Term')

    def firsts(p):
        z, E = elems_of(b, p)
        e, h = b.elem(z), b.phead(p)
        isn, n = is_variant(e, EL, N_), proj(e, EL, N_, 0)
        fs = setof(at(mu, n))
        x = mk('elem', fs, 0)
        inner = [mk('item', NOT(isn), TUP(h, proj(e, EL, T_, 0)))]
        inner += TM.guard_pieces([forp(x, fs, 0, [mk('item', 1, TUP(h, x))])], isn)
        r = forp(z, E, NOT(AND(isn, nul(n))), inner)
        return [r] if r is not None else []
    want = coll('set', None, each_prod(a, b, g, firsts))
    a.iff('each production contributes the firsts of its elements up to and including the first that is not nullable', f, has(facts(ps), q), has(want, q))
    fin = F.fin[mu]
    ok = [(w, h) for w, h in branches(S.val) if is_variant(w, RES, 0) != 0]
    okg = OR(*[h for _, h in ok])
    a.iff('first sets are computed whenever nullability is', f, okg, okvar(NU, ctx))
    if not a.ob('there is one result', len(ok) == 1, f, show(S.val)[:400]):
        return
    V = proj(ok[0][0], RES, 0, 0)
    nt, t = SYM('anynt'), SYM('anyterm')
    n = FI + '::get'
    r = a.app(n, V, nt)
    in_ = AND(some_guard(r), has(setof(strip(unsome(restrict(r, some_guard(r))))), t)) if some_guard(r) else 0
    a.iff('the sets reported are the saturated ones', n, in_, AND(has(fin, nt), has(setof(at(fin, nt)), t)))
    err = [(w, h) for w, h in branches(restrict(S.val, NOT(okg)))] if okg != 1 else []
    FE = PASSES + 'firsts::FirstsError'
    a.same('otherwise the error of the nullable analysis is returned', f, restrict(S.val, NOT(okg)), AGG(RES, 1, (AGG(FE, evar(a, FE, 'NullableError'), (error(NU, ctx),)),)), cond=NOT(okg))
    a.no_panic('the analysis never panics', S)
    a.no_panic('the accessors never panic', a.S(n))


RULES = [('first sets', check)]
