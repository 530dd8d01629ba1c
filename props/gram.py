"""Observers of grammars through their public accessors."""
from rules import *

GB = 'grammar::base::'
GR, RU, PR, PE, EL, PK = GB + 'Grammar', GB + 'Rule', GB + 'Prod', GB + 'ProdElement', GB + 'Elem', GB + 'ProdKey'
BB = GB + 'builder::'
ELN = {'Term': None, 'NonTerm': None}


def evar(a, adt, name):
    for i, v in enumerate(a.p.adts[adt]['variants']):
        if v['name'] == name:
            return i
    raise Missing('%s::%s' % (adt, name))


def term(a, t):
    return AGG(EL, evar(a, EL, 'Term'), (t,))


def nonterm(a, t):
    return AGG(EL, evar(a, EL, 'NonTerm'), (t,))


class Gram:
    def __init__(self, a):
        self.a = a
        # the value a rule handle is made of, from looking a rule up
        g, nt = SYM('g0'), SYM('nt0')
        v = a.app(GR + '::try_get_rule', g, nt)
        self.g0, self.nt0 = g, nt
        alts = [(w, h) for w, h in branches(v) if some_guard(w) != 0]
        if len(alts) != 1:
            raise Missing('looking a rule up: %s' % show(v)[:300])
        self.rule_t = unsome(alts[0][0])
        self.present = alts[0][1]
        ls = [t for t in subterms(self.rule_t) if t.k == 'load' and t.a[1] is nt]
        if len(ls) != 1:
            raise Missing('the stored rule: %s' % show(self.rule_t)[:300])
        self.stored = ls[0]
        self.map0 = self.stored.a[0]
        KIND[self.map0] = 'map'

    def map(self, g):
        """the rules of grammar g by head"""
        return subst(self.map0, {self.g0: g})

    def keyed(self, g):
        """a rule is stored under its head (C10): the head of a stored rule is its key"""
        m = self.map(g)
        KIND[m] = 'map'
        y = SYM('stored')
        hd = self.head(self.rule(g, y))
        if hd.k == 'fld' and hd.a[0] is y:
            TM.KEYED.add((m, hd.a[1], hd.a[3]))

    def rule(self, g, ri):
        """handle of the stored rule ri of g"""
        return subst(TM.replace_term(self.rule_t, self.stored, ri), {self.g0: g, self.nt0: SYM('unused')})

    def head(self, r):
        return strip(self.a.app(RU + '::head', r))

    def prods(self, r):
        return self.a.collect(self.a.app(RU + '::prods', r))

    def elems(self, p):
        return strip(self.a.app(PR + '::prod_elements', p))

    def key(self, p):
        return strip(self.a.app(PR + '::action_key', p))

    def value(self, p):
        return strip(self.a.app(PR + '::action_value', p))

    def phead(self, p):
        return strip(self.a.app(PR + '::head', p))

    def eid(self, e):
        return strip(self.a.app(PE + '::id', e))

    def elem(self, e):
        return strip(self.a.app(PE + '::elem', e))

    # everything callers can see, as one value
    def oelem(self, e):
        return TUP(self.eid(e), self.elem(e))

    def oprod(self, p):
        return TUP(self.phead(p), self.key(p), self.value(p), cmap(self.elems(p), self.oelem))

    def orule(self, r):
        return TUP(self.head(r), cmap(self.prods(r), self.oprod))
