"""C08 follow sets."""
from rules import *
from props.gram import *
from props.sets import *
from props.c06 import each_prod, elems_of
import props.rel_collect as RC

LEVEL = 'proof'
TECHNIQUE = 'fixed-point loop summaries from MIR: the rules a saturation loop applies are extracted and compared with the definition; no execution, no solver'
EXPLAIN = ('The pass is summarised from MIR for an arbitrary grammar, with collecting maps as relations (C22) and the results of other passes as given (C06, C07, C09). Its loop is accepted only if it repeats '
           'exactly while some set grew, so that its result is the least solution of the rules it applies; these rules are compared with the definition of follow sets, and the recorded sets with that solution.')
FO = PASSES + 'follows::Follows'
FI = PASSES + 'firsts::Firsts'


def check(a):
    b = Gram(a)
    f = a.impl(FO, 'grammar::passes::Pass', 'run_pass')
    ctx = SYM('ctx')
    g = strip(a.app(PC + '::grammar', ctx))
    S = a.S(f, RC.CONTRACTS, [ctx], key='c08')
    s = saturation(a, S, f)
    if s is None:
        return
    F, mu, ps = s
    q = TUP(SYM('anynt'), SYM('anyterm'))
    nul = lambda n: truth(a.app(NU + '::is_nullable', result(NU, ctx), n))
    N_, T_ = evar(a, EL, 'NonTerm'), evar(a, EL, 'Term')

    def firsts(n):
        r = a.app(FI + '::get', result(FI, ctx), n)
        g = some_guard(r)
        return g, setof(strip(unsome(restrict(r, g)))) if g else EMPTYC('set')

    def follows(p):
        z, E = elems_of(b, p)
        e, h = b.elem(z), b.phead(p)
        isn, n = is_variant(e, EL, N_), proj(e, EL, N_, 0)
        rest = mk('skip', E, TM.add(mk('ix', z), INT(1)))
        KIND.setdefault(rest, 'vec')
        y = first_free(rest)
        ye = b.elem(y)
        yn, ym = is_variant(ye, EL, N_), proj(ye, EL, N_, 0)
        fg, fs = firsts(ym)
        x = mk('elem', fs, 0)
        stop = NOT(AND(yn, nul(ym)))
        inner = [mk('item', NOT(yn), TUP(n, proj(ye, EL, T_, 0)))]
        inner += TM.guard_pieces([forp(x, fs, 0, [mk('item', 1, TUP(n, x))])], AND(yn, fg))
        hs = setof(at(mu, h))
        w = mk('elem', hs, 0)
        out = [forp(y, rest, stop, inner)]
        out += TM.guard_pieces([forp(w, hs, 0, [mk('item', 1, TUP(n, w))])], NOT(exists(y, rest, 0, stop)))
        r = forp(z, E, 0, TM.guard_pieces([o for o in out if o is not None], isn))
        return [r] if r is not None else []
    want = coll('set', None, each_prod(a, b, g, follows))
    a.iff('a nonterminal is followed by what the rest of the production can begin with, past nullable elements, and by what follows the head when the rest can be empty', f, has(facts(ps), q), has(want, q))
    fin = F.fin[mu]
    ok = [(w, h) for w, h in branches(S.val) if is_variant(w, RES, 0) != 0]
    okg = OR(*[h for _, h in ok])
    a.iff('follow sets are computed whenever nullability and first sets are', f, okg, AND(okvar(NU, ctx), okvar(FI, ctx)))
    if not a.ob('there is one result', len(ok) == 1, f, show(S.val)[:400]):
        return
    nt, t = SYM('anynt'), SYM('anyterm')
    V = strip(ok[0][0])
    V = proj(V, RES, 0, 0)
    M = strip(V.a[2][0]) if V.k == 'agg' and len(V.a[2]) == 1 else None
    if not a.ob('the result is the recorded sets', M is not None, f, show(V)[:300]):
        return
    KIND.setdefault(M, 'map')
    in_ = AND(has(M, nt), has(setof(load(M, nt)), t))
    a.iff('the sets recorded are the saturated ones', f, in_, AND(has(fin, nt), has(setof(at(fin, nt)), t)))
    E_ = restrict(S.val, NOT(okg))
    FE, ER = PASSES + 'firsts::FirstsError', PASSES + 'follows::FollowsError'
    nerr = AGG(FE, evar(a, FE, 'NullableError'), (error(NU, ctx),))
    mk_ = lambda e: AGG(RES, 1, (AGG(ER, evar(a, ER, 'First'), (e,)),))
    a.same('an error of the nullable analysis is returned', f, restrict(S.val, NOT(okvar(NU, ctx))), mk_(nerr), cond=NOT(okvar(NU, ctx)))
    c2 = AND(okvar(NU, ctx), NOT(okvar(FI, ctx)))
    a.same('an error of the first-set analysis is returned', f, restrict(S.val, c2), mk_(error(FI, ctx)), cond=c2)
    a.no_panic('the analysis never panics', S)


RULES = [('follow sets', check)]
