"""Common part of the first- and follow-set checks: terminal sets computed by one saturation loop over a collecting map."""
from rules import *
from props.gram import *
import props.rel_collect as RC

PASSES = 'grammar::passes::'
NU = PASSES + 'nullable::Nullable'
PC = PASSES + 'PassContext'


def okvar(pas, ctx):
    return B.var(mk('b', call('pass ok', (STR(pas), ctx))))


def result(pas, ctx):
    return call('pass', (STR(pas), ctx))


def error(pas, ctx):
    return call('pass error', (STR(pas), ctx))


def saturation(a, S, f):
    best = None
    for L in S.flog:
        gs = [(k, mu, ps) for k, (mu, ps) in L.fixed.grow.items() if ps]
        if not L.solved or len(gs) != 1:
            continue
        k, mu, ps = gs[0]
        init = strip(L.fixed.leafinit(k))
        if init.k != 'coll' or as_pieces(init):
            continue
        best = best or (L.fixed, mu, ps)
    if not a.ob('one loop saturates the sets, starting from nothing', best is not None, f, '; '.join('%s' % (L.fixed.why,) for L in S.flog) or 'no fixed-point loop'):
        return None
    return best


def facts(ps):
    """(key, element) facts of the pieces of a collecting map"""
    from props.c06 import relation
    return coll('set', None, relation('map', ps))


def at(mu, k):
    return RC.under(mu, k)


def setof(v):
    KIND.setdefault(v, 'set')
    return v
