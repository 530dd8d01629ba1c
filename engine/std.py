"""Models of the standard library (and of im, pretty, dot, log) for the value-flow analysis."""
from terms import *
import terms as TM

MODELS = {}
INTRINSIC = {}
PUREPREFIX = {'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::vec::Vec::len', '[T]::len',
              'std::convert::AsRef::as_ref', 'std::clone::Clone::clone'}
ENTRY = 'std::collections::btree_map::Entry'


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def intrinsic(*names):
    def d(f):
        for n in names:
            INTRINSIC[n] = f
        return f
    return d


def lookup(fn, res):
    f = MODELS.get(fn) or (MODELS.get(res) if res else None)
    if f:
        return f
    for pre, f in PREFIX:
        if fn.startswith(pre):
            return f
    return None


PREFIX = []


def OPTG(g, v):
    return phi([(SOME(v), g), (NONE, NOT(g))])


def CV(*kinds):
    def d(f):
        return f
    return d


# ---------------------------------------------------------------- identities
def ident(M, c, a, i):
    return a[0]


for n in ('std::ops::Deref::deref', 'std::borrow::Borrow::borrow', 'std::convert::From::from', 'std::convert::Into::into',
          'std::rc::Rc::new', 'std::sync::Arc::new', 'std::boxed::Box::new', 'std::boxed::Box::pin', 'std::hint::must_use',
          'std::convert::identity', 'std::rc::Rc::clone', 'std::string::String::as_str', 'std::vec::Vec::as_slice',
          'anyhow::__private::must_use', 'std::vec::Vec::into_boxed_slice', '[T]::into_vec', '[T]::to_vec',
          'std::borrow::ToOwned::to_owned', 'std::string::String::as_mut_str', 'std::vec::Vec::as_mut_slice',
          'std::rc::Rc::as_ref', 'std::hint::black_box', 'std::mem::ManuallyDrop::new', 'str::as_bytes', 'std::string::String::into_boxed_str',
          'std::string::String::as_bytes', 'std::string::String::into_bytes', 'std::result::Result::as_ref', 'std::option::Option::as_ref',
          'std::option::Option::as_deref', 'std::option::Option::cloned', 'std::option::Option::copied', 'std::option::Option::into_iter_',
          'std::boxed::Box::leak', 'std::rc::Rc::unwrap_or_clone', 'std::boxed::Box::into_inner',
          'std::iter::Iterator::by_ref', 'std::result::Result::cloned', 'std::result::Result::copied', 'std::borrow::Cow::into_owned'):
    MODELS[n] = ident


@intrinsic('std::clone::Clone::clone', 'std::clone::Clone::clone_from')
def clone(M, c, a, i):
    v = a[0]
    if i.targs and i.targs[0][0] == 'param' or True:
        if v.k == 'ref':
            return M.deref(c, v)
        return v.a[0] if v.k == 'addr' else v


@model('std::ops::DerefMut::deref_mut', 'std::convert::AsMut::as_mut', 'std::borrow::BorrowMut::borrow_mut')
def deref_mut(M, c, a, i):
    v = M.deref(c, a[0])
    if v.k == 'ref' or (v.k == 'phi' and any(w.k == 'ref' for w, _ in v.a[0])):
        return v
    return a[0]


@model('std::rc::Rc::make_mut', 'std::sync::Arc::make_mut')
def make_mut(M, c, a, i):
    return a[0]


@model('std::convert::AsRef::as_ref')
def as_ref(M, c, a, i):
    st = i.targs[0] if i.targs else None
    while st and st[0] == 'ref':
        st = st[2]
    if st and (st[0] == 'other' or (st[0] == 'adt' and st[1] in ('std::string::String', 'std::rc::Rc', 'std::boxed::Box', 'std::sync::Arc', 'std::vec::Vec', 'std::borrow::Cow'))):
        return M.val(c, a[0])
    return TM.call('text', (M.snap(c, a[0]),))


@model('std::string::ToString::to_string')
def to_string(M, c, a, i):
    st = i.targs[0] if i.targs else None
    while st and st[0] == 'ref':
        st = st[2]
    v = M.snap(c, a[0])
    if st and (st == ('other', 'str') or (st[0] == 'adt' and st[1] == 'std::string::String')):
        return v
    return text_of(text_pieces(v) if st == ('adt', 'utils::Name') else items(TM.call('Display', (v,))))


# ---------------------------------------------------------------- comparisons
def two(M, c, a, i):
    t = i.targs[0] if i.targs else ('other', '?')
    while t[0] == 'ref':
        t = t[2]
    if t[0] == 'ptr':
        # addresses, not contents
        x, y = [v if w.k == 'ref' and v.k == 'ref' else v for w, v in ((w, M.deref(c, w)) for w in a[:2])]
        return mk('pt', strip(x)), mk('pt', strip(y))
    return strip_deep(M, c, a[0]), strip_deep(M, c, a[1])


def strip_deep(M, c, v):
    return M.snap(c, v)


@intrinsic('std::cmp::PartialEq::eq')
def peq(M, c, a, i):
    x, y = two(M, c, a, i)
    return BOOL(eq(x, y))


@intrinsic('std::cmp::PartialEq::ne')
def pne(M, c, a, i):
    x, y = two(M, c, a, i)
    return BOOL(NOT(eq(x, y)))


@intrinsic('std::cmp::Ord::cmp')
def ocmp(M, c, a, i):
    x, y = two(M, c, a, i)
    return compare(x, y)


@intrinsic('std::cmp::PartialOrd::partial_cmp')
def pcmp(M, c, a, i):
    x, y = two(M, c, a, i)
    return SOME(compare(x, y))


def is_log(i):
    return any(t[0] == 'adt' and t[1].startswith('log::') for t in i.targs)


@intrinsic('std::cmp::PartialOrd::lt')
def plt(M, c, a, i):
    if is_log(i):
        return FALSE
    x, y = two(M, c, a, i)
    return BOOL(glt(x, y))


@intrinsic('std::cmp::PartialOrd::le')
def ple(M, c, a, i):
    if is_log(i):
        return FALSE
    x, y = two(M, c, a, i)
    return BOOL(NOT(glt(y, x)))


@intrinsic('std::cmp::PartialOrd::gt')
def pgt(M, c, a, i):
    if is_log(i):
        return FALSE
    x, y = two(M, c, a, i)
    return BOOL(glt(y, x))


@intrinsic('std::cmp::PartialOrd::ge')
def pge(M, c, a, i):
    if is_log(i):
        return FALSE
    x, y = two(M, c, a, i)
    return BOOL(NOT(glt(x, y)))


def below(M, c, x, y, i):
    """x < y as the type orders its values"""
    t = i.targs[0] if i.targs else None
    if t and t[0] == 'adt' and t[1] in M.p.adts and not t[2]:
        n = [n for n, b in M.p.bodies.items() if b.get('trait') == 'std::cmp::Ord' and n.endswith('::cmp') and b.get('trait_args') and M.p.ty(b['trait_args'][0], {})[:2] == t[:2]]
        if len(n) == 1:
            return is_variant(M.inline(c, n[0], (), [x, y]), ORD, 0)
    return glt(x, y)


@intrinsic('std::cmp::Ord::max')
def omax(M, c, a, i):
    l = below(M, c, a[1], a[0], i)
    return phi([(a[0], l), (a[1], NOT(l))])


@intrinsic('std::cmp::Ord::min')
def omin(M, c, a, i):
    l = below(M, c, a[1], a[0], i)
    return phi([(a[1], l), (a[0], NOT(l))])


@model('std::cmp::max')
def cmax(M, c, a, i):
    return omax(M, c, a, i)


@model('std::cmp::min')
def cmin(M, c, a, i):
    return omin(M, c, a, i)


@model('std::cmp::Ordering::then')
def then(M, c, a, i):
    e = is_variant(a[0], ORD, 1)
    return phi([(a[1], e), (a[0], NOT(e))])


@model('std::cmp::Ordering::then_with')
def then_with(M, c, a, i):
    e = is_variant(a[0], ORD, 1)
    return M.cond(c, [(e, lambda: M.callf(c, a[1], [])), (NOT(e), lambda: restrict(a[0], NOT(e)))])


@model('std::cmp::Ordering::reverse')
def reverse(M, c, a, i):
    v = a[0]
    return phi([(GREATER, is_variant(v, ORD, 0)), (EQUAL, is_variant(v, ORD, 1)), (LESS, is_variant(v, ORD, 2))])


for nm, idx, neg in (('is_lt', 0, 0), ('is_eq', 1, 0), ('is_gt', 2, 0), ('is_ne', 1, 1), ('is_ge', 0, 1), ('is_le', 2, 1)):
    def _f(M, c, a, i, idx=idx, neg=neg):
        g = is_variant(a[0], ORD, idx)
        return BOOL(NOT(g) if neg else g)
    MODELS['std::cmp::Ordering::' + nm] = _f


@model('std::ptr::eq', 'std::rc::Rc::ptr_eq', 'std::sync::Arc::ptr_eq', 'std::ptr::addr_eq')
def ptreq(M, c, a, i):
    x, y = [v.a[0] if v.k == 'addr' and i.fd['fn'].split('::')[1] in ('rc', 'sync') else v for v in a[:2]]
    return BOOL(ptr_eq(x, y))


@model('std::mem::discriminant')
def discriminant(M, c, a, i):
    t = i.targs[0]
    v = M.snap(c, a[0])
    if t[0] == 'adt' and NVAR.get(t[1]):
        n = len(NVAR[t[1]])
        return phi([(INT(j), is_variant(v, t[1], j)) for j in range(n)])
    return TM.call('discriminant', (v,))


@model('std::mem::swap')
def swap(M, c, a, i):
    x, y = M.deref(c, a[0]), M.deref(c, a[1])
    M.store(c, a[0], y)
    M.store(c, a[1], x)
    return UNIT


@model('std::mem::replace')
def replace(M, c, a, i):
    x = M.deref(c, a[0])
    M.store(c, a[0], a[1])
    return x


@model('std::mem::take')
def take(M, c, a, i):
    x = M.deref(c, a[0])
    M.store(c, a[0], default_of(M, c, i.targs[0]))
    return x


@model('std::mem::drop', 'std::mem::forget')
def mdrop(M, c, a, i):
    return UNIT


def default_of(M, c, t):
    from mir import VECT, SETT, MAPT
    if t[0] == 'adt':
        if t[1] in VECT:
            return EMPTYC('vec')
        if t[1] in SETT:
            return EMPTYC('set')
        if t[1] in MAPT:
            return EMPTYC('map')
        if t[1] == OPT:
            return NONE
        if t[1] == 'std::string::String':
            return STR('')
        n = '<%s as std::default::Default>::default' % t[1]
        if n in M.p.bodies:
            b = M.p.bodies[n]
            return M.inline(c, n, t[2], [])
    if t == ('other', 'bool'):
        return FALSE
    if t[0] == 'other' and t[1] in ('usize', 'u32', 'u64', 'i32', 'u8'):
        return INT(0)
    if t == ('tuple', ()):
        return UNIT
    return mk('const', 'default:' + str(t))


@model('std::default::Default::default')
def default(M, c, a, i):
    return default_of(M, c, i.targs[0] if i.targs else ('other', '?'))


# ---------------------------------------------------------------- Option / Result
def isok(v):
    return is_variant(v, RES, 0)


def issome(v):
    return is_variant(v, OPT, 1)


def some(v):
    return proj(v, OPT, 1, 0)


def okv(v):
    return proj(v, RES, 0, 0)


def errv(v):
    return proj(v, RES, 1, 0)


O, R = 'std::option::Option::', 'std::result::Result::'


def oval(M, c, v):
    return M.val(c, v) if v.k == 'ref' else strip(v)


@model(O + 'is_some')
def is_some_(M, c, a, i):
    return BOOL(issome(oval(M, c, a[0])))


@model(O + 'is_none')
def is_none_(M, c, a, i):
    return BOOL(NOT(issome(oval(M, c, a[0]))))


@model(R + 'is_ok')
def is_ok_(M, c, a, i):
    return BOOL(isok(oval(M, c, a[0])))


@model(R + 'is_err')
def is_err_(M, c, a, i):
    return BOOL(NOT(isok(oval(M, c, a[0]))))


@model(O + 'unwrap', O + 'expect', O + 'unwrap_unchecked')
def unwrap(M, c, a, i):
    g = issome(a[0])
    M.panic(c, NOT(g), 'unwrap of None')
    return some(restrict(a[0], g)) if g else BOT


@model(R + 'unwrap', R + 'expect')
def runwrap(M, c, a, i):
    g = isok(a[0])
    M.panic(c, NOT(g), 'unwrap of Err')
    return okv(restrict(a[0], g)) if g else BOT


@model(R + 'unwrap_err', R + 'expect_err')
def runwrap_err(M, c, a, i):
    g = isok(a[0])
    M.panic(c, g, 'unwrap_err of Ok')
    return errv(restrict(a[0], NOT(g)))


@model(O + 'map')
def omap(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: SOME(M.callf(c, a[1], [some(restrict(a[0], g))]))), (NOT(g), lambda: NONE)])


@model(O + 'and_then')
def oand_then(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: M.callf(c, a[1], [some(restrict(a[0], g))])), (NOT(g), lambda: NONE)])


@model(O + 'filter')
def ofilter(M, c, a, i):
    g = issome(a[0])

    def f():
        x = some(restrict(a[0], g))
        return OPTG(truth(M.callf(c, a[1], [x])), x)
    return M.cond(c, [(g, f), (NOT(g), lambda: NONE)])


@model(O + 'map_or')
def omap_or(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: M.callf(c, a[2], [some(restrict(a[0], g))])), (NOT(g), lambda: a[1])])


@model(O + 'map_or_else')
def omap_or_else(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: M.callf(c, a[2], [some(restrict(a[0], g))])), (NOT(g), lambda: M.callf(c, a[1], []))])


@model(O + 'is_some_and')
def ois_some_and(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: M.callf(c, a[1], [some(restrict(a[0], g))])), (NOT(g), lambda: FALSE)])


@model(O + 'is_none_or')
def ois_none_or(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: M.callf(c, a[1], [some(restrict(a[0], g))])), (NOT(g), lambda: TRUE)])


@model(O + 'unwrap_or')
def ounwrap_or(M, c, a, i):
    g = issome(a[0])
    return phi([(some(a[0]), g), (a[1], NOT(g))])


@model(O + 'unwrap_or_else')
def ounwrap_or_else(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: some(restrict(a[0], g))), (NOT(g), lambda: M.callf(c, a[1], []))])


@model(O + 'unwrap_or_default')
def ounwrap_or_default(M, c, a, i):
    g = issome(a[0])
    return phi([(some(a[0]), g), (default_of(M, c, i.targs[0]), NOT(g))])


@model(O + 'or')
def oor(M, c, a, i):
    g = issome(a[0])
    return phi([(a[0], g), (a[1], NOT(g))])


@model(O + 'or_else')
def oor_else(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: restrict(a[0], g)), (NOT(g), lambda: M.callf(c, a[1], []))])


@model(O + 'and')
def oand(M, c, a, i):
    g = issome(a[0])
    return phi([(a[1], g), (NONE, NOT(g))])


@model(O + 'xor')
def oxor(M, c, a, i):
    g, h = issome(a[0]), issome(a[1])
    return phi([(a[0], AND(g, NOT(h))), (a[1], AND(h, NOT(g))), (NONE, OR(AND(g, h), AND(NOT(g), NOT(h))))])


@model(O + 'ok_or')
def ook_or(M, c, a, i):
    g = issome(a[0])
    return phi([(OK(some(restrict(a[0], g))), g), (ERR(a[1]), NOT(g))])


@model(O + 'ok_or_else')
def ook_or_else(M, c, a, i):
    g = issome(a[0])
    return M.cond(c, [(g, lambda: OK(some(restrict(a[0], g)))), (NOT(g), lambda: ERR(M.callf(c, a[1], [])))])


@model(O + 'zip')
def ozip(M, c, a, i):
    g = AND(issome(a[0]), issome(a[1]))
    return OPTG(g, TUP(some(a[0]), some(a[1]))) if g else NONE


@model(O + 'flatten')
def oflatten(M, c, a, i):
    g = issome(a[0])
    return phi([(some(restrict(a[0], g)), g), (NONE, NOT(g))])


@model(O + 'as_mut', O + 'as_deref_mut')
def oas_mut(M, c, a, i):
    v = M.deref(c, a[0])
    g = issome(v)
    out = []
    for k, x, path, h in M.refalts(a[0]):
        out.append((SOME(mk('ref', x, path + (('f', OPT, 1, 0, 1),))), AND(g, h)))
    return phi(out + [(NONE, NOT(g))])


@model(O + 'take')
def otake(M, c, a, i):
    v = M.deref(c, a[0])
    M.store(c, a[0], NONE)
    return v


@model(O + 'replace')
def oreplace(M, c, a, i):
    v = M.deref(c, a[0])
    M.store(c, a[0], SOME(a[1]))
    return v


@model(O + 'insert')
def oinsert(M, c, a, i):
    M.store(c, a[0], SOME(a[1]))
    return phi([(mk('ref', x, path + (('f', OPT, 1, 0, 1),)), h) for k, x, path, h in M.refalts(a[0])])


@model(O + 'get_or_insert_with')
def ogoiw(M, c, a, i):
    v = M.deref(c, a[0])
    g = issome(v)
    nv = M.cond(c, [(g, lambda: restrict(v, g)), (NOT(g), lambda: SOME(M.callf(c, a[1], [])))])
    M.store(c, a[0], nv)
    return phi([(mk('ref', x, path + (('f', OPT, 1, 0, 1),)), h) for k, x, path, h in M.refalts(a[0])])


@model(O + 'iter', O + 'into_iter')
def oiter(M, c, a, i):
    return mk('it', 'opt', oval(M, c, a[0]))


@model(R + 'map')
def rmap(M, c, a, i):
    g = isok(a[0])
    return M.cond(c, [(g, lambda: OK(M.callf(c, a[1], [okv(restrict(a[0], g))]))), (NOT(g), lambda: ERR(errv(restrict(a[0], NOT(g)))))])


@model(R + 'map_err')
def rmap_err(M, c, a, i):
    g = isok(a[0])
    return M.cond(c, [(g, lambda: OK(okv(restrict(a[0], g)))), (NOT(g), lambda: ERR(M.callf(c, a[1], [errv(restrict(a[0], NOT(g)))])))])


@model(R + 'and_then')
def rand_then(M, c, a, i):
    g = isok(a[0])
    return M.cond(c, [(g, lambda: M.callf(c, a[1], [okv(restrict(a[0], g))])), (NOT(g), lambda: ERR(errv(restrict(a[0], NOT(g)))))])


@model(R + 'or_else')
def ror_else(M, c, a, i):
    g = isok(a[0])
    return M.cond(c, [(g, lambda: OK(okv(restrict(a[0], g)))), (NOT(g), lambda: M.callf(c, a[1], [errv(restrict(a[0], NOT(g)))]))])


@model(R + 'unwrap_or_else')
def runwrap_or_else(M, c, a, i):
    g = isok(a[0])
    return M.cond(c, [(g, lambda: okv(restrict(a[0], g))), (NOT(g), lambda: M.callf(c, a[1], [errv(restrict(a[0], NOT(g)))]))])


@model(R + 'unwrap_or')
def runwrap_or(M, c, a, i):
    g = isok(a[0])
    return phi([(okv(a[0]), g), (a[1], NOT(g))])


@model(R + 'ok')
def rok(M, c, a, i):
    g = isok(a[0])
    return OPTG(g, okv(restrict(a[0], g))) if g else NONE


@model(R + 'err')
def rerr(M, c, a, i):
    g = isok(a[0])
    return OPTG(NOT(g), errv(restrict(a[0], NOT(g)))) if g != 1 else NONE


@model('std::ops::Try::branch')
def try_branch(M, c, a, i):
    t = i.targs[0]
    v = a[0]
    if t[0] == 'adt' and t[1] == OPT:
        g = issome(v)
        return phi([(AGG(CF, 0, (some(restrict(v, g)),)), g), (AGG(CF, 1, (NONE,)), NOT(g))])
    if t[0] == 'adt' and t[1] == RES:
        g = isok(v)
        return phi([(AGG(CF, 0, (okv(restrict(v, g)),)), g), (AGG(CF, 1, (ERR(errv(restrict(v, NOT(g)))),)), NOT(g))])
    return None


@model('std::ops::FromResidual::from_residual')
def from_residual(M, c, a, i):
    t = i.targs[0]
    if t[0] == 'adt' and t[1] == OPT:
        return NONE
    if t[0] == 'adt' and t[1] == RES:
        return ERR(convert_error(M, c, errv(a[0]), t[2][1], i.targs[1][2][1] if len(i.targs) > 1 and i.targs[1][0] == 'adt' and len(i.targs[1][2]) > 1 else None))
    return None


def convert_error(M, c, e, F, E, local=False):
    """the `From` conversion of `?` and of `into`"""
    if F == E or E is None or F[0] != 'adt':
        return None if local else e
    cand = []
    for n, b in M.p.bodies.items():
        if b.get('trait') == 'std::convert::From' and b.get('kind') != 'closure' and b.get('trait_args'):
            if M.p.ty(b['trait_args'][0], {})[:2] == F[:2]:
                cand.append((n, M.p.ty(b['trait_args'][1], {})))
    if local:
        cand = [x for x in cand if x[1][:2] == E[:2]]
        return M.inline(c, cand[0][0], (), [e]) if len(cand) == 1 else None
    if not cand:
        return e if E[0] != 'adt' else call('from', (e,))
    if len(cand) > 1:
        cand = [x for x in cand if x[1][:2] == E[:2]]
    if len(cand) != 1:
        return call('from', (e,))
    return M.inline(c, cand[0][0], (), [e])


@model('std::convert::Into::into')
def into(M, c, a, i):
    if len(i.targs) > 1 and i.targs[0] != i.targs[1]:
        r = convert_error(M, c, a[0], i.targs[1], i.targs[0], local=True)
        if r is not None:
            return r
    return a[0]


@model('std::ops::Try::from_output')
def from_output(M, c, a, i):
    t = i.targs[0]
    return SOME(a[0]) if t[1] == OPT else OK(a[0])


# ---------------------------------------------------------------- collections
def content(M, c, r):
    return strip(M.val(c, r))


V = 'std::vec::Vec::'
for n in (V + 'new', V + 'with_capacity', 'im::Vector::new', 'std::collections::VecDeque::new'):
    MODELS[n] = lambda M, c, a, i: EMPTYC('vec')
for n in ('std::collections::BTreeSet::new', 'std::collections::HashSet::new', 'im::OrdSet::new'):
    MODELS[n] = lambda M, c, a, i: EMPTYC('set')
for n in ('std::collections::BTreeMap::new', 'std::collections::HashMap::new', 'im::OrdMap::new'):
    MODELS[n] = lambda M, c, a, i: EMPTYC('map')
for n in ('std::string::String::new',):
    MODELS[n] = lambda M, c, a, i: STR('')


@model(V + 'push', 'im::Vector::push_back', 'std::collections::VecDeque::push_back')
def push(M, c, a, i):
    v = content(M, c, a[0])
    if v.k == 'phi':
        M.store(c, a[0], phi([(coll('vec', w, items(restrict(a[1], g))), g) for w, g in v.a[0]]))
    else:
        M.store(c, a[0], coll('vec', v, items(a[1])) if not (v.k == 'coll' and not v.a[2] and v.a[1] is None) else coll('vec', None, items(a[1])))
    return UNIT


@model('std::collections::VecDeque::push_front', 'im::Vector::push_front')
def push_front(M, c, a, i):
    v = content(M, c, a[0])
    M.store(c, a[0], coll('vec', None, items(a[1]) + tuple(as_pieces(v))))
    return UNIT


def lastof(v):
    v = strip(v)
    if v.k == 'phi':
        return phi([(lastof(w), AND(g, nonempty(w))) for w, g in v.a[0]])
    if v.k == 'coll' and v.a[2]:
        p = v.a[2][-1]
        if p.k == 'item' and p.a[0] == 1:
            return p.a[1]
        if p.k == 'item':
            return phi([(p.a[1], p.a[0]), (lastof(mk('coll', v.a[0], v.a[1], v.a[2][:-1]) if v.a[2][:-1] or v.a[1] is None else v.a[1]), NOT(p.a[0]))])
    return mk('lastelem', v)


def butlast(v):
    v = strip(v)
    if v.k == 'phi':
        return phi([(butlast(w), g) for w, g in v.a[0]])
    if v.k == 'coll' and v.a[2]:
        p = v.a[2][-1]
        if p.k == 'item' and p.a[0] == 1:
            return coll(v.a[0], v.a[1], v.a[2][:-1])
    if v.k == 'coll' and not v.a[2] and v.a[1] is None:
        return v
    r = mk('init', v)
    mark_kind(r, 'vec')
    return r


@model(V + 'pop', 'std::collections::VecDeque::pop_back', 'im::Vector::pop_back')
def pop(M, c, a, i):
    v = content(M, c, a[0])
    g = nonempty(v)
    M.store(c, a[0], phi([(butlast(restrict(v, g)), g), (EMPTYC('vec'), NOT(g))]) if g != 1 else butlast(v))
    return OPTG(g, lastof(restrict(v, g))) if g else NONE


@model('std::collections::VecDeque::pop_front', 'im::Vector::pop_front', 'std::collections::BTreeSet::pop_first')
def pop_front(M, c, a, i):
    v = content(M, c, a[0])
    g = nonempty(v)
    M.store(c, a[0], phi([(skipc(restrict(v, g), INT(1)), g), (v, NOT(g))]))
    return OPTG(g, index(restrict(v, g), INT(0))) if g else NONE


@model(V + 'append', 'im::Vector::append')
def vappend(M, c, a, i):
    v = content(M, c, a[0])
    if a[1].k == 'ref':
        w = content(M, c, a[1])
        M.store(c, a[1], EMPTYC('vec'))
    else:
        w = a[1]
    M.store(c, a[0], coll('vec', v, tuple(as_pieces(w))))
    return UNIT


@model('std::iter::Extend::extend', V + 'extend_from_slice', 'std::collections::BTreeSet::append')
def extend(M, c, a, i):
    v = content(M, c, a[0])
    t = i.targs[0] if i.targs else None
    k = kind_of(v) or kind_by_type(t) or kind_by_type(i.argtys[0]) or 'vec'
    if i.fd['fn'].endswith('append'):
        it = mk('it', 'src', content(M, c, a[1]))
    else:
        it = as_iter(M, c, a[1], i.argtys[1] if len(i.argtys) > 1 else None)
    collect_into(M, c, it, k, v, lambda r: M.store(c, a[0], r))
    if i.fd['fn'].endswith('append') and a[1].k == 'ref':
        M.store(c, a[1], EMPTYC(k))
    return UNIT


def kind_by_type(t):
    from mir import VECT, SETT, MAPT
    while t and t[0] == 'ref':
        t = t[2]
    if not t:
        return None
    if t[0] in ('slice', 'array'):
        return 'vec'
    if t[0] == 'adt':
        if t[1] in VECT:
            return 'vec'
        if t[1] in SETT:
            return 'set'
        if t[1] in MAPT:
            return 'map'
        if t[1] in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc') and t[2]:
            return kind_by_type(t[2][0])
    return None


def mfn(*suffixes):
    """register for the vector-, set- and map-like types"""
    def d(f):
        for ty in ('std::vec::Vec', '[T]', 'im::Vector', 'std::collections::BTreeMap', 'std::collections::BTreeSet',
                   'std::collections::HashMap', 'std::collections::HashSet', 'std::collections::VecDeque', 'im::OrdMap', 'im::OrdSet'):
            for s in suffixes:
                MODELS.setdefault(ty + '::' + s, f)
        return f
    return d


@mfn('len')
def vlen(M, c, a, i):
    return length(content(M, c, a[0]))


@mfn('is_empty')
def vis_empty(M, c, a, i):
    return BOOL(NOT(nonempty(content(M, c, a[0]))))


@mfn('clear')
def vclear(M, c, a, i):
    k = kind_by_type(i.argtys[0]) or kind_of(content(M, c, a[0])) or 'vec'
    M.store(c, a[0], EMPTYC(k))
    return UNIT


@mfn('iter')
def viter(M, c, a, i):
    return mk('it', 'src', content(M, c, a[0]))


@mfn('iter_mut', 'values_mut')
def viter_mut(M, c, a, i):
    if i.fd['fn'].endswith('values_mut'):
        return None
    return mk('it', 'mut', a[0])


@mfn('contains')
def vcontains(M, c, a, i):
    v = content(M, c, a[0])
    k = kind_by_type(i.argtys[0]) or kind_of(v)
    if k == 'vec':
        x = M.elem_of(v)
        y = M.snap(c, a[1])
        ex = M.over(v, c.mem, lambda x, m: [('hit', eq(x, y), m), ('next', NOT(eq(x, y)), m)])
        return BOOL(OR(*[g for t, g, m in ex if t == 'hit']))
    return BOOL(has(v, M.snap(c, a[1])))


@model('[T]::first', 'im::Vector::front', V + 'first', 'std::collections::VecDeque::front', 'std::collections::BTreeSet::first')
def first_(M, c, a, i):
    v = content(M, c, a[0])
    g = nonempty(v)
    return OPTG(g, index(restrict(v, g), INT(0))) if g else NONE


@model('[T]::last', 'im::Vector::last', 'im::Vector::back', V + 'last', 'std::collections::VecDeque::back', 'std::collections::BTreeSet::last')
def last_(M, c, a, i):
    v = content(M, c, a[0])
    g = nonempty(v)
    return OPTG(g, lastof(restrict(v, g))) if g else NONE


def range_of(v):
    """(lo, hi or None) of a range value, or None"""
    if v.k == 'agg' and v.a[0].startswith('std::ops::Range'):
        n = v.a[0].split('::')[-1]
        if n == 'Range':
            return v.a[2][0], v.a[2][1]
        if n == 'RangeFrom':
            return v.a[2][0], None
        if n == 'RangeTo':
            return INT(0), v.a[2][0]
        if n == 'RangeFull':
            return INT(0), None
        if n == 'RangeInclusive':
            return v.a[2][0], TM.add(v.a[2][1], INT(1))
        if n == 'RangeToInclusive':
            return INT(0), TM.add(v.a[2][0], INT(1))
    return None


@model(*['std::ops::%s::contains' % n for n in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive')])
def range_contains(M, c, a, i):
    v, x = content(M, c, a[0]), content(M, c, a[1])
    if v.k != 'agg' or not v.a[0].startswith('std::ops::Range'):
        return None
    n, ps = v.a[0].split('::')[-1], v.a[2]
    if n == 'RangeInclusive' and ps[2] is not FALSE:
        return None
    lo = None if n in ('RangeTo', 'RangeToInclusive') else content(M, c, ps[0])
    hi = None if n == 'RangeFrom' else content(M, c, ps[0] if lo is None else ps[1])
    g = 1 if lo is None else NOT(glt(x, lo))
    if hi is not None:
        g = AND(g, NOT(glt(hi, x)) if n.endswith('Inclusive') else glt(x, hi))
    return BOOL(g)


@model('std::ops::RangeInclusive::new')
def range_incl(M, c, a, i):
    return AGG('std::ops::RangeInclusive', 0, (a[0], a[1], FALSE))


def slice_(M, c, v, lo, hi, text):
    n = TM.call('strlen', (v,)) if text else length(v)
    if text:
        UNSIGNED.add(n)
    bad = 0
    if hi is None:
        bad = lt(n, lo)
    else:
        bad = OR(lt(n, hi), lt(hi, lo))
    M.panic(c, bad, 'slice range out of bounds')
    if text:
        if hi is not None and hi is n:
            hi = None
        return TM.call('substr', (v, lo, hi if hi is not None else n))
    r = skipc(v, lo)
    if hi is not None:
        r = TM.call('take', (r, TM.sub(hi, lo)))
        mark_kind(r, 'vec')
    return r


def is_text(t):
    while t and t[0] == 'ref':
        t = t[2]
    return t == ('other', 'str') or bool(t and t[0] == 'adt' and t[1] == 'std::string::String')


@model('[T]::get', 'im::Vector::get', V + 'get', 'std::collections::VecDeque::get')
def vget(M, c, a, i):
    v = content(M, c, a[0])
    r = range_of(a[1])
    if r is not None:
        n = length(v)
        lo, hi = r
        ok = NOT(lt(n, lo)) if hi is None else AND(NOT(lt(n, hi)), NOT(lt(hi, lo)))
        w = skipc(v, lo)
        if hi is not None:
            w = TM.call('take', (w, TM.sub(hi, lo)))
            mark_kind(w, 'vec')
        return OPTG(ok, w)
    g = lt(a[1], length(v))
    return OPTG(g, index(v, restrict(a[1], g))) if g else NONE


@model('[T]::get_mut', V + 'get_mut', 'im::Vector::get_mut')
def vget_mut(M, c, a, i):
    v = content(M, c, a[0])
    g = lt(a[1], length(v))
    return phi([(SOME(mk('ref', x, path + (('ix', a[1]),))), AND(g, h)) for k, x, path, h in M.refalts(deepref(M, c, a[0]))] + [(NONE, NOT(g))])


def deepref(M, c, r):
    while r.k == 'ref':
        v = M.deref(c, r)
        if v.k == 'ref':
            r = v
        else:
            break
    return r


@model('std::ops::Index::index')
def index_(M, c, a, i):
    v = content(M, c, a[0])
    r = range_of(a[1])
    text = is_text(i.argtys[0]) or (i.targs and is_text(i.targs[0]))
    if r is not None:
        return slice_(M, c, v, r[0], r[1], text)
    k = kind_by_type(i.argtys[0]) or kind_of(v)
    if k == 'map':
        h = has(v, M.snap(c, a[1]))
        M.panic(c, NOT(h), 'map index')
        return load(v, M.snap(c, a[1]))
    g = lt(a[1], length(v))
    M.panic(c, NOT(g), 'index out of bounds')
    return index(v, a[1])


@model('std::ops::IndexMut::index_mut')
def index_mut(M, c, a, i):
    v = content(M, c, a[0])
    g = lt(a[1], length(v))
    M.panic(c, NOT(g), 'index out of bounds')
    return phi([(mk('ref', x, path + (('ix', a[1]),)), h) for k, x, path, h in M.refalts(deepref(M, c, a[0]))])


@model('str::get')
def str_get(M, c, a, i):
    return TM.call('str::get', (content(M, c, a[0]), a[1]))


@model('std::string::String::len', 'str::len')
def str_len(M, c, a, i):
    v = TM.call('strlen', (content(M, c, a[0]),))
    UNSIGNED.add(v)
    return v


@model('std::string::String::is_empty', 'str::is_empty')
def str_is_empty(M, c, a, i):
    return BOOL(TM.eq(str_len(M, c, a, i), INT(0)))


@model('[T]::binary_search_by', '[T]::binary_search', '[T]::binary_search_by_key', '[T]::partition_point')
def bsearch(M, c, a, i):
    v = content(M, c, a[0])
    if i.fd['fn'].endswith('_by'):
        x = mk('elem', v, len(M.active) + 7)
        cc = type(c)(c.mem)
        r = M.callf(cc, a[1], [x])
        lam = mk('lam', (x,), r)
        w = TM.call('binary_search_by', (v, lam))
    else:
        w = TM.call(i.fd['fn'].split('::')[-1], tuple([v] + [M.snap(c, y) for y in a[1:]]))
    return w


@model('[T]::reverse', V + 'reverse')
def vreverse(M, c, a, i):
    M.store(c, a[0], revc(content(M, c, a[0])))
    return UNIT


def revc(v):
    v = strip(v)
    if v.k == 'phi':
        return phi([(revc(w), g) for w, g in v.a[0]])
    if v.k == 'rev':
        return v.a[0]
    if v.k == 'coll' and v.a[0] == 'vec' and v.a[1] is None and all(p.k == 'item' for p in v.a[2]):
        return coll('vec', None, tuple(reversed(v.a[2])))
    r = mk('rev', v)
    mark_kind(r, 'vec')
    return r


@model(V + 'truncate')
def vtruncate(M, c, a, i):
    v = content(M, c, a[0])
    r = TM.call('take', (v, a[1]))
    mark_kind(r, 'vec')
    M.store(c, a[0], r)
    return UNIT


@model(V + 'insert')
def vinsert(M, c, a, i):
    v = content(M, c, a[0])
    if a[1].k == 'int' and a[1].a[0] == 0:
        M.store(c, a[0], coll('vec', None, items(a[2]) + tuple(as_pieces(v))))
    else:
        r = TM.call('insert_at', (v, a[1], a[2]))
        mark_kind(r, 'vec')
        M.store(c, a[0], r)
    return UNIT


@model(V + 'remove', V + 'swap_remove')
def vremove(M, c, a, i):
    v = content(M, c, a[0])
    g = lt(a[1], length(v))
    M.panic(c, NOT(g), 'remove out of bounds')
    if a[1].k == 'int' and a[1].a[0] == 0 and i.fd['fn'].endswith('::remove'):
        M.store(c, a[0], skipc(v, INT(1)))
    else:
        r = TM.call(i.fd['fn'], (v, a[1]))
        mark_kind(r, 'vec')
        M.store(c, a[0], r)
    return index(v, a[1])


@mfn('retain')
def vretain(M, c, a, i):
    v = content(M, c, a[0])
    k = kind_by_type(i.argtys[0]) or kind_of(v) or 'vec'
    if k == 'map':
        return None
    collect_into(M, c, mk('it', 'filter', mk('it', 'src', v), a[1]), k, EMPTYC(k), lambda r: M.store(c, a[0], r))
    return UNIT


@model('[T]::split_first', V + 'split_first')
def split_first(M, c, a, i):
    v = content(M, c, a[0])
    g = nonempty(v)
    return OPTG(g, TUP(index(restrict(v, g), INT(0)), skipc(restrict(v, g), INT(1)))) if g else NONE


@model('[T]::split_at')
def split_at(M, c, a, i):
    v = content(M, c, a[0])
    M.panic(c, lt(length(v), a[1]), 'split_at')
    t = TM.call('take', (v, a[1]))
    mark_kind(t, 'vec')
    return TUP(t, skipc(v, a[1]))


@model(V + 'drain', 'std::collections::VecDeque::drain')
def vdrain(M, c, a, i):
    r = range_of(a[1])
    if r is not None and r[1] is None and r[0] is INT(0):
        v = content(M, c, a[0])
        M.store(c, a[0], EMPTYC('vec'))
        return mk('it', 'src', v)
    return None


@model('[T]::concat')
def vconcat(M, c, a, i):
    it = mk('it', 'flatten', mk('it', 'src', content(M, c, a[0])))
    return collect_value(M, c, it, 'vec')


@model('[T]::sort', '[T]::sort_unstable', V + 'dedup')
def vsort(M, c, a, i):
    r = TM.call(i.fd['fn'], (content(M, c, a[0]),))
    mark_kind(r, 'vec')
    M.store(c, a[0], r)
    return UNIT


# vec![...]
@model('std::boxed::Box::new_uninit')
def new_uninit(M, c, a, i):
    M.heap = getattr(M, 'heap', 0) + 1
    r = ('H', M.heap)
    c.mem = dict(c.mem)
    c.mem[r] = mk('uninit')
    return mk('ref', r, ())


@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(M, c, a, i):
    v = M.deref(c, a[0])
    while v.k == 'agg' and len(v.a[2]) >= 1 and v.a[0] not in ('()', 'closure'):
        v = v.a[2][-1]
    return v


@model('std::vec::from_elem')
def from_elem(M, c, a, i):
    if a[1].k == 'int':
        return coll('vec', None, items(*([a[0]] * a[1].a[0])))
    r = TM.call('repeat', (a[0], a[1]))
    mark_kind(r, 'vec')
    return r


# ---------------------------------------------------------------- maps and sets
BM, BS = 'std::collections::BTreeMap::', 'std::collections::BTreeSet::'


@model(BM + 'get', 'std::collections::HashMap::get')
def mget_(M, c, a, i):
    m, k = content(M, c, a[0]), M.snap(c, a[1])
    h = has(m, k)
    return OPTG(h, load(restrict(m, h), k)) if h else NONE


@model(BM + 'get_key_value')
def mget_kv(M, c, a, i):
    m, k = content(M, c, a[0]), M.snap(c, a[1])
    h = has(m, k)
    return OPTG(h, TUP(k, load(restrict(m, h), k))) if h else NONE


@model(BS + 'get')
def sget(M, c, a, i):
    m, k = content(M, c, a[0]), M.snap(c, a[1])
    return OPTG(has(m, k), k)


@model(BM + 'contains_key')
def mcontains(M, c, a, i):
    return BOOL(has(content(M, c, a[0]), M.snap(c, a[1])))


def keyref(M, c, r, k):
    return phi([(mk('ref', x, path + (('key', k),)), h) for kk, x, path, h in M.refalts(deepref(M, c, r))])


@model(BM + 'get_mut')
def mget_mut(M, c, a, i):
    m, k = content(M, c, a[0]), M.snap(c, a[1])
    h = has(m, k)
    return OPTG(h, keyref(M, c, a[0], k))


@model(BM + 'insert', 'std::collections::HashMap::insert')
def minsert(M, c, a, i):
    m, k = content(M, c, a[0]), strip(a[1])
    h = has(m, k)
    old = OPTG(h, load(restrict(m, h), k)) if h else NONE
    M.store(c, a[0], mapset(m, k, a[2]))
    return old


def premove(m, k, kind):
    m = strip(m)
    if m.k == 'phi':
        return phi([(premove(w, restrict(k, g), kind), g) for w, g in m.a[0]])
    return coll(kind, m, (mk('rm', 1, k),))


@model(BM + 'remove')
def mremove(M, c, a, i):
    m, k = content(M, c, a[0]), M.snap(c, a[1])
    h = has(m, k)
    M.store(c, a[0], premove(m, k, 'map'))
    return OPTG(h, load(restrict(m, h), k)) if h else NONE


@model(BM + 'remove_entry')
def mremove_entry(M, c, a, i):
    m, k = content(M, c, a[0]), M.snap(c, a[1])
    h = has(m, k)
    M.store(c, a[0], premove(m, k, 'map'))
    return OPTG(h, TUP(k, load(restrict(m, h), k))) if h else NONE


@model(BM + 'append')
def mappend(M, c, a, i):
    m, o = content(M, c, a[0]), content(M, c, a[1])
    M.store(c, a[0], coll('map', m, tuple(as_pieces(o))))
    M.store(c, a[1], EMPTYC('map'))
    return UNIT


@model(BM + 'keys', BM + 'into_keys', 'std::collections::HashMap::keys')
def mkeys(M, c, a, i):
    return mk('it', 'fst', mk('it', 'src', content(M, c, a[0])))


@model(BM + 'values', BM + 'into_values', 'std::collections::HashMap::values')
def mvalues(M, c, a, i):
    return mk('it', 'snd', mk('it', 'src', content(M, c, a[0])))


@model(BS + 'insert', 'std::collections::HashSet::insert')
def sinsert(M, c, a, i):
    s, v = content(M, c, a[0]), strip(a[1])
    h = has(s, v)
    if s.k == 'phi':
        M.store(c, a[0], phi([(coll('set', w, items(restrict(v, g))), g) for w, g in s.a[0]]))
    else:
        M.store(c, a[0], coll('set', s, items(v)) if not (s.k == 'coll' and s.a[1] is None and not s.a[2]) else coll('set', None, items(v)))
    return BOOL(NOT(h))


@model(BS + 'remove')
def sremove(M, c, a, i):
    s, v = content(M, c, a[0]), M.snap(c, a[1])
    M.store(c, a[0], premove(s, v, 'set'))
    return BOOL(has(s, v))


@model(BS + 'union')
def sunion(M, c, a, i):
    return mk('it', 'src', coll('set', content(M, c, a[0]), tuple(as_pieces(content(M, c, a[1])))))


@model(BS + 'difference')
def sdifference(M, c, a, i):
    return mk('it', 'pfilter', mk('it', 'src', content(M, c, a[0])), content(M, c, a[1]), FALSE)


@model(BS + 'intersection')
def sintersection(M, c, a, i):
    return mk('it', 'pfilter', mk('it', 'src', content(M, c, a[0])), content(M, c, a[1]), TRUE)


def setop(f):
    def g(M, c, a, i):
        t = i.argtys[0] if i.argtys else None
        while t and t[0] == 'ref':
            t = t[-1]
        if not (t and t[0] == 'adt' and t[1] in ('std::collections::BTreeSet', 'std::collections::HashSet')):
            return None
        return collect_value(M, c, f(M, c, a, i), 'set')
    return g


MODELS['std::ops::Sub::sub'] = setop(sdifference)
MODELS['std::ops::BitOr::bitor'] = setop(sunion)
MODELS['std::ops::BitAnd::bitand'] = setop(sintersection)


@model('bool::then')
def bthen(M, c, a, i):
    g = truth(a[0])
    return M.cond(c, [(g, lambda: SOME(M.callf(c, a[1], []))), (NOT(g), lambda: NONE)])


@model('bool::then_some')
def bthen_some(M, c, a, i):
    g = truth(a[0])
    return phi([(SOME(a[1]), g), (NONE, NOT(g))])


@model(BS + 'is_subset')
def ssubset(M, c, a, i):
    s, o = content(M, c, a[0]), content(M, c, a[1])
    ex = M.over(s, c.mem, lambda x, m: [('hit', NOT(has(o, x)), m), ('next', has(o, x), m)])
    return BOOL(NOT(OR(*[g for t, g, m in ex if t == 'hit'])))


@model(BM + 'entry', 'std::collections::HashMap::entry')
def mentry(M, c, a, i):
    m, k = content(M, c, a[0]), strip(a[1])
    h = has(m, k)
    r = deepref(M, c, a[0])
    occ, vac = mk('occ', r, k), mk('vac', r, k)
    E = i.dty[1] if i.dty and i.dty[0] == 'adt' else ENTRY
    vs = NVAR.get(E) or NVAR.setdefault(E, ['Vacant', 'Occupied'])
    return phi([(mk('agg', E, vs.index('Occupied'), (occ,)), h), (mk('agg', E, vs.index('Vacant'), (vac,)), NOT(h))])


def eparts(M, c, v):
    """(map ref, key) of an entry in any form"""
    v = M.val(c, v) if v.k == 'ref' else v
    if v.k == 'phi':
        v = v.a[0][0][0]
    if v.k == 'agg':
        v = v.a[2][0]
    if v.k == 'phi':
        v = v.a[0][0][0]
    if v.k in ('occ', 'vac'):
        return v.a[0], v.a[1]
    raise ValueError('entry %r' % (v,))


def EN(*ns):
    out = []
    for n in ns:
        for t in ('btree_map', 'hash_map'):
            out.append('std::collections::%s::%s' % (t, n))
    return out


@model(*EN('Entry::or_insert_with', 'Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with_key'))
def or_insert(M, c, a, i):
    r, k = eparts(M, c, a[0])
    m = content(M, c, r)
    h = has(m, k)

    def ins():
        if i.fd['fn'].endswith('or_insert'):
            v = a[1]
        elif i.fd['fn'].endswith('or_default'):
            v = default_of(M, c, i.targs[1] if len(i.targs) > 1 else ('other', '?'))
        elif i.fd['fn'].endswith('or_insert_with_key'):
            v = M.callf(c, a[1], [k])
        else:
            v = M.callf(c, a[1], [])
        M.store(c, r, mapset(content(M, c, r), k, v))
        return UNIT
    M.cond(c, [(NOT(h), ins), (h, lambda: UNIT)])
    return keyref(M, c, r, k)


@model(*EN('Entry::and_modify'))
def and_modify(M, c, a, i):
    r, k = eparts(M, c, a[0])
    h = has(content(M, c, r), k)
    M.cond(c, [(h, lambda: M.callf(c, a[1], [keyref(M, c, r, k)])), (NOT(h), lambda: UNIT)])
    return a[0]


@model(*EN('Entry::key', 'OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key'))
def ekey(M, c, a, i):
    return eparts(M, c, a[0])[1]


@model(*EN('OccupiedEntry::get_mut', 'OccupiedEntry::into_mut'))
def oget_mut(M, c, a, i):
    r, k = eparts(M, c, a[0])
    return keyref(M, c, r, k)


@model(*EN('OccupiedEntry::get'))
def oget(M, c, a, i):
    r, k = eparts(M, c, a[0])
    return load(content(M, c, r), k)


@model(*EN('OccupiedEntry::insert'))
def oins(M, c, a, i):
    r, k = eparts(M, c, a[0])
    m = content(M, c, r)
    M.store(c, r, mapset(m, k, a[1]))
    return load(m, k)


@model(*EN('VacantEntry::insert'))
def vins(M, c, a, i):
    r, k = eparts(M, c, a[0])
    m = content(M, c, r)
    M.store(c, r, mapset(m, k, a[1]))
    return keyref(M, c, r, k)


@model(*EN('OccupiedEntry::remove_entry'))
def oremove_entry(M, c, a, i):
    r, k = eparts(M, c, a[0])
    m = content(M, c, r)
    M.store(c, r, premove(m, k, 'map'))
    return TUP(k, load(m, k))


@model(*EN('OccupiedEntry::remove'))
def oremove(M, c, a, i):
    r, k = eparts(M, c, a[0])
    m = content(M, c, r)
    M.store(c, r, premove(m, k, 'map'))
    return load(m, k)


# ---------------------------------------------------------------- cells
@model('std::cell::RefCell::new', 'std::sync::RwLock::new', 'std::sync::Mutex::new', 'std::cell::Cell::new')
def cell_new(M, c, a, i):
    return mk('agg', i.fd['fn'].rsplit('::', 1)[0], 0, (strip(a[0]),))


def cellof(M, c, v):
    v = strip(M.val(c, v))
    return v


@model('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut')
def borrow(M, c, a, i):
    cell = cellof(M, c, a[0])
    r = phi([(mk('ref', ('C', w), ()), g) for w, g in branches(cell)])
    if i.fd['fn'].endswith('borrow'):
        return M.deref(c, r)
    return r


@model('std::sync::RwLock::read', 'std::sync::RwLock::write', 'std::sync::Mutex::lock')
def lock(M, c, a, i):
    cell = cellof(M, c, a[0])
    r = phi([(mk('ref', ('C', w), ()), g) for w, g in branches(cell)])
    if i.fd['fn'].endswith('read'):
        return OK(M.deref(c, r))
    return OK(r)


@model('std::cell::RefCell::into_inner')
def cell_into(M, c, a, i):
    return M.deref(c, mk('ref', ('C', cellof(M, c, a[0])), ()))


# ---------------------------------------------------------------- Any
@model('std::rc::Rc::downcast', 'std::boxed::Box::downcast', 'dyn std::any::Any::downcast_ref', 'dyn std::any::Any::downcast_mut', 'dyn std::any::Any::is')
def downcast(M, c, a, i):
    want = str(i.targs[0] if i.targs[0] != ('adt', 'std::alloc::Global', ()) else i.targs[-1])
    inner = M.snap(c, a[0])
    g = B.var(mk('b', mk('istype', inner, want)))
    fn = i.fd['fn']
    val = a[0]
    if fn.endswith('downcast'):
        return phi([(OK(val), g), (ERR(val), NOT(g))])
    if fn.endswith('::is'):
        return BOOL(g)
    return OPTG(g, val)


# ---------------------------------------------------------------- panics
@model('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::assert_failed', 'core::panicking::unreachable_default_msg',
       'std::rt::begin_panic', 'core::panicking::panic_explicit', 'core::panicking::panic_display', 'core::option::unwrap_failed',
       'std::rt::panic_fmt', 'core::panicking::unreachable_display', 'std::process::abort', 'std::process::exit', 'core::panicking::panic_str_2015')
def panic(M, c, a, i):
    M.panic(c, 1, i.fd['fn'])
    return BOT


@model('log::max_level')
def log_max(M, c, a, i):
    return mk('const', 'log::max_level')


# ---------------------------------------------------------------- closures
@model('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::Fn::call')
def call_mut(M, c, a, i):
    args = a[1]
    n = len(args.a[2]) if args.k == 'agg' else None
    if n is None:
        args = strip(args)
        return M.callf(c, a[0], [args])
    return M.callf(c, a[0], list(args.a[2]))


# ---------------------------------------------------------------- iterators
I = 'std::iter::Iterator::'


def as_iter(M, c, v, ty=None):
    t = ty
    while t and t[0] == 'ref' and v.k != 'ref':
        t = t[2]
    if v.k == 'it':
        return v
    if v.k == 'addr':
        return as_iter(M, c, v.a[0], ty)
    if v.k == 'ref':
        w = M.deref(c, v)
        if w.k == 'ref':
            return as_iter(M, c, w, ty)
        if w.k == 'it' or range_of(w) is not None or (t and t[0] == 'ref' and t[1] and t[2][0] in ('param', 'alias')):
            return mk('it', 'byref', v)
        return mk('it', 'mut', v)
    if v.k == 'phi':
        return phi([(as_iter(M, c, w, ty), g) for w, g in v.a[0]])
    if range_of(v) is not None and v.a[0] in ('std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom'):
        return mk('it', 'range', *(x if x is not None else NONE for x in range_of(v)))
    if t and t[0] == 'adt' and t[1] == OPT:
        return mk('it', 'opt', strip(v))
    if v.k == 'agg' and v.a[0] == OPT:
        return mk('it', 'opt', v)
    return mk('it', 'src', strip(v))


@model('std::iter::IntoIterator::into_iter')
def into_iter(M, c, a, i):
    return as_iter(M, c, a[0], i.argtys[0] if i.argtys else None)


def itv(M, c, v, ty=None):
    return as_iter(M, c, v, ty)


for op in ('map', 'filter', 'filter_map', 'flat_map', 'inspect', 'take_while', 'skip_while', 'map_while'):
    def _f(M, c, a, i, op=op):
        return mk('it', op, itv(M, c, a[0]), a[1])
    MODELS[I + op] = _f
for op in ('cloned', 'copied', 'fuse', 'by_ref_', 'peekable'):
    def _f(M, c, a, i, op=op):
        return itv(M, c, a[0])
    MODELS[I + op] = _f
for op in ('enumerate', 'flatten', 'rev'):
    def _f(M, c, a, i, op=op):
        return mk('it', op, itv(M, c, a[0]))
    MODELS[I + op] = _f
for op in ('skip', 'take'):
    def _f(M, c, a, i, op=op):
        return mk('it', op, itv(M, c, a[0]), a[1])
    MODELS[I + op] = _f
for op in ('chain', 'zip'):
    def _f(M, c, a, i, op=op):
        return mk('it', op, itv(M, c, a[0]), itv(M, c, a[1], i.argtys[1] if len(i.argtys) > 1 else None))
    MODELS[I + op] = _f
MODELS['std::iter::zip'] = lambda M, c, a, i: mk('it', 'zip', itv(M, c, a[0]), itv(M, c, a[1]))
MODELS['std::iter::empty'] = lambda M, c, a, i: mk('it', 'empty')
MODELS['std::iter::once'] = lambda M, c, a, i: mk('it', 'once', strip(a[0]))
MODELS['std::iter::repeat'] = lambda M, c, a, i: mk('it', 'repeat', strip(a[0]))


@model('std::iter::once_with')
def once_with(M, c, a, i):
    return mk('it', 'once', M.callf(c, a[0], []))


def callbody(M, f, args, m, k):
    """call f then continue with k(value, mem)"""
    from mir import Ctx
    c = Ctx(m)
    v = M.callf(c, f, args)
    if c.surv == 0:
        return []
    if v is BOT:
        return []
    ex = k(v, c.mem)
    if c.surv != 1:
        ex = [(t, AND(c.surv, g), m2) for t, g, m2 in ex]
    return ex


def under(M, g, th, m):
    """th() when g, otherwise straight on"""
    from mir import mergetags
    out = []
    if g != 0:
        M.gst.append(g)
        out += [(t, AND(g, h), mm) for t, h, mm in th()]
        M.gst.pop()
    if g != 1:
        out.append(('next', NOT(g), m))
    return mergetags(out)


def is_iter(v):
    return v.k == 'it'


def consume(M, it, mem, body):
    from mir import Ctx, mergetags, merge
    if it.k == 'phi':
        ex = []
        for w, g in it.a[0]:
            M.gst.append(g)
            ex += [(t, AND(g, h), m) for t, h, m in consume(M, w, mem, body)]
            M.gst.pop()
        return mergetags(ex)
    if it.k != 'it':
        return M.over(it, mem, body)
    op = it.a[0]
    A = it.a[1:]
    if op == 'src':
        return M.over(A[0], mem, body)
    if op == 'empty':
        return [('next', 1, mem)]
    if op == 'once':
        return body(A[0], mem)
    if op == 'opt':
        g = issome(A[0])
        return under(M, g, lambda: body(some(restrict(A[0], g)), mem), mem)
    if op == 'fst':
        return consume(M, A[0], mem, lambda x, m: body(proj(x, '()', 0, 0), m))
    if op == 'snd':
        return consume(M, A[0], mem, lambda x, m: body(proj(x, '()', 0, 1), m))
    if op == 'map':
        return consume(M, A[0], mem, lambda x, m: callbody(M, A[1], [x], m, body))
    if op == 'inspect':
        return consume(M, A[0], mem, lambda x, m: callbody(M, A[1], [x], m, lambda v, m2: body(x, m2)))
    if op == 'filter':
        def f(x, m):
            def k(v, m2):
                g = truth(v)
                return under(M, g, lambda: body(restrict(x, g), m2), m2)
            return callbody(M, A[1], [x], m, k)
        return consume(M, A[0], mem, f)
    if op == 'pfilter':
        def f(x, m):
            g = has(A[1], x)
            g = g if truth(A[2]) == 1 else NOT(g)
            return under(M, g, lambda: body(x, m), m)
        return consume(M, A[0], mem, f)
    if op == 'filter_map':
        def f(x, m):
            def k(v, m2):
                g = issome(v)
                return under(M, g, lambda: body(some(restrict(v, g)), m2), m2)
            return callbody(M, A[1], [x], m, k)
        return consume(M, A[0], mem, f)
    if op == 'flat_map':
        def f(x, m):
            def k(v, m2):
                return consume(M, as_iter(M, Ctx(m2), v), m2, body)
            return callbody(M, A[1], [x], m, k)
        return consume(M, A[0], mem, f)
    if op == 'flatten':
        return consume(M, A[0], mem, lambda x, m: consume(M, as_iter(M, Ctx(m), x), m, body))
    if op == 'chain':
        ex = consume(M, A[0], mem, body)
        G, m = merge([(g, m) for t, g, m in ex if t == 'next'])
        out = [e for e in ex if e[0] != 'next']
        if G:
            M.gst.append(G)
            out += [(t, AND(G, g), mm) for t, g, mm in consume(M, A[1], m, body)]
            M.gst.pop()
        return out
    if op in ('take_while', 'map_while'):
        def f(x, m):
            def k(v, m2):
                g = truth(v) if op == 'take_while' else issome(v)
                y = restrict(x, g) if op == 'take_while' else (some(restrict(v, g)) if g else BOT)
                out = []
                if g:
                    M.gst.append(g)
                    out += [(t, AND(g, h), mm) for t, h, mm in body(y, m2)]
                    M.gst.pop()
                if g != 1:
                    out.append(('stop', NOT(g), m2))
                return out
            return callbody(M, A[1], [x], m, k)
        ex = consume(M, A[0], mem, f)
        return mergetags([('next' if t == 'stop' else t, g, m) for t, g, m in ex])
    if op == 'enumerate':
        return positions(M, A[0], mem, lambda i, x, m: body(TUP(i, x), m))
    if op == 'range':
        lo, hi = A
        if hi.k == 'len' or hi.k == 'int' or True:
            return over_range(M, lo, hi, mem, body)
    if op in ('rev', 'skip', 'take'):
        inner = A[0]
        # push through element-wise adaptors
        if inner.k == 'it' and inner.a[0] in ('map', 'fst', 'snd', 'inspect'):
            return consume(M, mk('it', inner.a[0], mk('it', op, inner.a[1], *A[1:]), *inner.a[2:]), mem, body)
        if inner.k == 'it' and inner.a[0] == 'src':
            C = inner.a[1]
        elif inner.k == 'it' and inner.a[0] == 'enumerate' and inner.a[1].k == 'it' and inner.a[1].a[0] == 'src' and op == 'rev':
            return M.over(revc(inner.a[1].a[1]), mem, lambda x, m: body(TUP(TM.sub(TM.sub(length(inner.a[1].a[1]), INT(1)), mk('ix', x)), x), m))
        else:
            c = Ctx(mem)
            C = collect_value(M, c, inner, 'vec')
            mem = c.mem
        if op == 'rev':
            S = revc(C)
        elif op == 'skip':
            S = skipc(C, A[1])
        else:
            S = TM.call('take', (C, A[1]))
            mark_kind(S, 'vec')
        return M.over(S, mem, body)
    if op == 'zip':
        return zipped(M, A[0], A[1], mem, body)
    if op == 'mut':
        return over_mut(M, A[0], mem, body)
    if op == 'byref':
        c = Ctx(mem)
        inner = M.deref(c, A[0])
        M.store(c, A[0], mk('it', 'empty'))
        ex = consume(M, inner if inner.k == 'it' else as_iter(M, c, inner) if range_of(inner) is not None else mk('it', 'src', inner), c.mem, body)
        out = []
        for t, g, m in ex:
            if t != 'next':
                c2 = Ctx(m)
                M.store(c2, A[0], mk('it', 'rest', inner))
                m = c2.mem
            out.append((t, g, m))
        return out
    return M.over(it, mem, body)


def over_range(M, lo, hi, mem, body):
    if hi is NONE or (hi.k == 'agg' and hi.a[0] == OPT):
        S = mk('rangefrom', lo)
        return M.summarise(S, mem, lambda x, m: body(mark_u(x), m))
    if hi.k == 'phi':
        from mir import mergetags
        return mergetags([(t, AND(g, h), m) for w, g in hi.a[0] for t, h, m in over_range(M, restrict(lo, g), w, mem, body)])
    if lo.k == 'int' and hi.k == 'int' and hi.a[0] - lo.a[0] <= 8:
        ps = coll('vec', None, items(*[INT(n) for n in range(lo.a[0], hi.a[0])]))
        return M.over(ps, mem, body)
    if hi.k == 'len':
        C = hi.a[0]
        S = skipc(C, lo)

        def f(x, m):
            i = mk('ix', x)
            UNSIGNED.add(i)
            return body(TM.add(lo, i), m)
        return M.summarise(S, mem, f)
    S = mk('range', lo, hi)
    return M.summarise(S, mem, lambda x, m: body(mark_u(x), m))


def mark_u(x):
    UNSIGNED.add(x)
    return x


def positions(M, it, mem, body, base=None):
    """items with their index"""
    from mir import Ctx
    base = base or INT(0)
    if it.k == 'it' and it.a[0] == 'src':
        C = strip(it.a[1])
        if C.k == 'phi':
            from mir import mergetags
            return mergetags([(t, AND(g, h), m) for w, g in C.a[0] for t, h, m in positions(M, mk('it', 'src', w), mem, body, base)])
        if C.k == 'coll' and C.a[0] == 'vec' and C.a[1] is None and all(p.k == 'item' and p.a[0] == 1 for p in C.a[2]):
            st = [(1, mem)]
            out = []
            from mir import merge
            for n, p in enumerate(C.a[2]):
                G, m = merge(st)
                if not G:
                    break
                ex = body(TM.add(base, INT(n)), p.a[1], m)
                out += [(t, AND(G, g), mm) for t, g, mm in ex if t != 'next']
                st = [(AND(G, g), mm) for t, g, mm in ex if t == 'next']
            G, m = merge(st)
            if G:
                out.append(('next', G, m))
            return out
        if C.k == 'coll' and C.a[0] == 'vec' and C.a[1] is None and len(C.a[2]) == 1 and C.a[2][0].k == 'for' and C.a[2][0].a[2] == 0 \
                and len(C.a[2][0].a[3]) == 1 and C.a[2][0].a[3][0].k == 'item' and C.a[2][0].a[3][0].a[0] == 1:
            var, src, _, sub_ = C.a[2][0].a
            return positions(M, mk('it', 'src', src), mem, lambda i, x, m: body(i, subst(sub_[0].a[1], {var: x}), m), base)

        def f(x, m):
            i = mk('ix', x)
            UNSIGNED.add(i)
            return body(TM.add(base, i), x, m)
        return M.summarise(C, mem, f)
    if it.k == 'it' and it.a[0] == 'map':
        return positions(M, it.a[1], mem, lambda i, x, m: callbody(M, it.a[2], [x], m, lambda v, m2: body(i, v, m2)), base)
    if it.k == 'it' and it.a[0] == 'inspect':
        return positions(M, it.a[1], mem, lambda i, x, m: callbody(M, it.a[2], [x], m, lambda v, m2: body(i, x, m2)), base)
    if it.k == 'it' and it.a[0] in ('fst', 'snd'):
        return positions(M, it.a[1], mem, lambda i, x, m: body(i, proj(x, '()', 0, 0 if it.a[0] == 'fst' else 1), m), base)
    c = Ctx(mem)
    C = collect_value(M, c, it, 'vec')
    if it.k == 'it' and it.a[0] == 'src':
        raise AssertionError
    return positions(M, mk('it', 'src', C), c.mem, body, base)


def elementwise(it):
    """(source collection, [adaptors]) when `it` is a source with one-to-one adaptors"""
    ads = []
    while it.k == 'it' and it.a[0] in ('map', 'fst', 'snd', 'inspect', 'enumerate'):
        ads.append(it)
        it = it.a[1]
    if it.k == 'it' and it.a[0] == 'src':
        return it.a[1], ads[::-1]
    return None, None


def zipped(M, a, b, mem, body):
    from mir import Ctx
    # the same value with every element
    if b.k == 'it' and b.a[0] == 'repeat':
        return consume(M, a, mem, lambda x, m: body(TUP(x, b.a[1]), m))
    if a.k == 'it' and a.a[0] == 'repeat':
        return consume(M, b, mem, lambda x, m: body(TUP(a.a[1], x), m))
    # counting companion
    if a.k == 'it' and a.a[0] == 'range' and (a.a[2] is NONE) and a.a[1].k == 'int':
        return positions(M, b, mem, lambda i, x, m: body(TUP(i, x), m), a.a[1])
    if b.k == 'it' and b.a[0] == 'range' and (b.a[2] is NONE) and b.a[1].k == 'int':
        return positions(M, a, mem, lambda i, x, m: body(TUP(x, i), m), b.a[1])
    c = Ctx(mem)
    sa, aa = elementwise(a)
    if sa is None:
        sa, aa = collect_value(M, c, a, 'vec'), []
    sb, ab = elementwise(b)
    if sb is None:
        sb, ab = collect_value(M, c, b, 'vec'), []
    # pull the common shape of mapped collections
    sa, fa = unmap(sa)
    sb, fb = unmap(sb)
    if sa is sb:
        def f2(x, m):
            return chainads(M, aa, fa(x), mk('ix', x), m, lambda v, m2: chainads(M, ab, fb(x), mk('ix', x), m2, lambda w, m3: body(TUP(v, w), m3)))
        return M.over(sa, c.mem, f2)
    S = mk('zip', sa, sb)

    def f(x, m):
        u, w = proj(x, '()', 0, 0), proj(x, '()', 0, 1)
        return chainads(M, aa, fa(u), mk('ix', x), m, lambda v, m2: chainads(M, ab, fb(w), mk('ix', x), m2, lambda w2, m3: body(TUP(v, w2), m3)))
    return M.summarise(S, c.mem, f)


def unmap(C):
    C = strip(C)
    if C.k == 'coll' and C.a[0] == 'vec' and C.a[1] is None and len(C.a[2]) == 1 and C.a[2][0].k == 'for' and C.a[2][0].a[2] == 0 \
            and len(C.a[2][0].a[3]) == 1 and C.a[2][0].a[3][0].k == 'item' and C.a[2][0].a[3][0].a[0] == 1:
        var, src, _, sub_ = C.a[2][0].a
        return src, (lambda x: subst(sub_[0].a[1], {var: x}))
    return C, (lambda x: x)


def chainads(M, ads, x, i, m, k):
    if not ads:
        return k(x, m)
    a = ads[0]
    op = a.a[0]
    if op == 'map':
        return callbody(M, a.a[2], [x], m, lambda v, m2: chainads(M, ads[1:], v, i, m2, k))
    if op == 'inspect':
        return callbody(M, a.a[2], [x], m, lambda v, m2: chainads(M, ads[1:], x, i, m2, k))
    if op == 'enumerate':
        return chainads(M, ads[1:], TUP(i, x), i, m, k)
    return chainads(M, ads[1:], proj(x, '()', 0, 0 if op == 'fst' else 1), i, m, k)


def over_mut(M, ref, mem, body):
    from mir import Ctx, merge
    c = Ctx(mem)
    ref = deepref(M, c, ref)
    C = M.deref(c, ref)
    kd = kind_of(C)
    ismap = kd == 'map'
    acc = newacc(M)
    m0 = dict(c.mem)
    m0[acc] = EMPTYC('map' if ismap else 'vec')

    def f(x, m):
        r = ('E', x)
        m = dict(m)
        m[r] = proj(x, '()', 0, 1) if ismap else x
        ex = body(TUPREF(proj(x, '()', 0, 0), mk('ref', r, ())) if ismap else mk('ref', r, ()), m)
        out = []
        for t, g, mm in ex:
            mm = dict(mm)
            nv = mm.pop(r, x)
            if ismap:
                nv = TUP(proj(x, '()', 0, 0), nv)
            cur = mm[acc]
            mm[acc] = phi([(coll('map' if ismap else 'vec', w, items(restrict(nv, g2))), g2) for w, g2 in branches(cur)])
            out.append((t, g, mm))
        return out
    ex = M.over(C, m0, f)
    out = []
    for t, g, m in ex:
        m = dict(m)
        v = m.pop(acc)
        if t != 'next':
            v = mk('partial', v, C)
        c2 = Ctx(m)
        M.store(c2, ref, v)
        out.append((t, g, c2.mem))
    return out


def TUPREF(a, b):
    return mk('agg', '()', 0, (a, b))


def newacc(M):
    M.nacc = getattr(M, 'nacc', 0) + 1
    return ('ACC', M.nacc)


def app(kind, cur, x):
    if cur.k == 'phi':
        return phi([(app(kind, w, restrict(x, g)), g) for w, g in cur.a[0]])
    if cur.k == 'coll' and cur.a[1] is None and not cur.a[2]:
        return coll(kind, None, items(x))
    return coll(kind, cur, items(x))


def collect_into(M, c, it, kind, init, done):
    from mir import merge
    acc = newacc(M)
    m0 = dict(c.mem)
    m0[acc] = init

    def f(x, m):
        m = dict(m)
        m[acc] = app(kind, m[acc], x)
        return [('next', 1, m)]
    ex = consume(M, it, m0, f)
    G, m = merge([(g, m) for t, g, m in ex])
    if not G:
        c.surv = 0
        return BOT
    m = dict(m)
    v = m.pop(acc)
    c.surv = AND(c.surv, G)
    c.mem = m
    return done(v)


def collect_value(M, c, it, kind):
    if it.k == 'it' and it.a[0] == 'src':
        v = strip(it.a[1])
        k = kind_of(v)
        if k == kind or (kind == 'vec' and v.k != 'phi' and k is None):
            return v
    r = collect_into(M, c, it, kind, EMPTYC(kind), lambda v: v)
    mark_kind(r, kind)
    return r


@model(I + 'collect', 'std::iter::FromIterator::from_iter')
def collect(M, c, a, i):
    t = i.dty
    if t and t[0] == 'adt':
        # a type of the library is collected as it says
        from mir import unify
        got = []
        for n in M.p.trait_impls.get(('std::iter::FromIterator', 'from_iter'), ()):
            b, s = M.p.bodies[n], {}
            if unify(M.p.ty(b['trait_args'][0], {}), t, s):
                got.append((n, tuple(s.get(g, ('param', g)) for g in b.get('generics') or [])))
        if len(got) == 1:
            return M.inline(c, got[0][0], got[0][1], [a[0]])
    it = itv(M, c, a[0])
    return collect_ty(M, c, it, t)


def collect_ty(M, c, it, t):
    from mir import merge
    k = kind_by_type(t)
    if k:
        return collect_value(M, c, it, k)
    if t and t[0] == 'adt' and t[1] in (OPT, RES):
        k = kind_by_type(t[2][0])
        res = newacc(M)
        acc = newacc(M)
        m0 = dict(c.mem)
        m0[acc] = EMPTYC(k or 'vec')
        m0[res] = NONE

        def f(x, m):
            g = issome(x) if t[1] == OPT else isok(x)
            out = []
            if g:
                m2 = dict(m)
                m2[acc] = app(k or 'vec', m[acc], (some if t[1] == OPT else okv)(restrict(x, g)))
                out.append(('next', g, m2))
            if g != 1:
                m3 = dict(m)
                m3[res] = NONE if t[1] == OPT else errv(restrict(x, NOT(g)))
                out.append(('bad', NOT(g), m3))
            return out
        ex = consume(M, it, m0, f)
        vs = []
        ms = []
        for tg, g, m in ex:
            m = dict(m)
            v, r = m.pop(acc), m.pop(res)
            if k is None:
                v = TM.call('collected', (v, mk('const', str(t[2][0]))))
            if tg == 'next':
                vs.append((SOME(v) if t[1] == OPT else OK(v), g))
            else:
                vs.append((NONE if t[1] == OPT else ERR(r), g))
            ms.append((g, m))
        G, m = merge(ms)
        c.mem = m
        c.surv = AND(c.surv, G)
        return phi(vs)
    v = collect_value(M, c, it, 'vec')
    if t and t[0] == 'adt' and t[1] == 'std::borrow::Cow' and t[2] and t[2][0][0] == 'slice':
        return v
    return TM.call('collected', (v, mk('const', str(t))))


def search(M, c, it, f, none, tr=None):
    """run f(x, m) -> [(tag, guard, mem, value)]; first 'hit' ends the search"""
    from mir import merge
    res = newacc(M)
    m0 = dict(c.mem)
    m0[res] = mk('const', 'none')

    def b(x, m):
        return f(x, m, res)
    ex = consume(M, it, m0, b)
    vs, ms = [], []
    for t, g, m in ex:
        m = dict(m)
        v = m.pop(res)
        vs.append((none if t == 'next' else v, g))
        ms.append((g, m))
    G, m = merge(ms)
    if not G:
        c.surv = 0
        return BOT
    c.mem = m
    c.surv = AND(c.surv, G)
    return phi(vs)


def hitset(m, res, v):
    m = dict(m)
    m[res] = v
    return m


@model(I + 'any')
def iany(M, c, a, i):
    def f(x, m, res):
        def k(v, m2):
            g = truth(v)
            return [e for e in (('hit', g, hitset(m2, res, TRUE)), ('next', NOT(g), m2)) if e[1]]
        return callbody(M, a[1], [x], m, k)
    return search(M, c, itv(M, c, a[0]), f, FALSE)


@model(I + 'all')
def iall(M, c, a, i):
    def f(x, m, res):
        def k(v, m2):
            g = truth(v)
            return [e for e in (('hit', NOT(g), hitset(m2, res, FALSE)), ('next', g, m2)) if e[1]]
        return callbody(M, a[1], [x], m, k)
    return search(M, c, itv(M, c, a[0]), f, TRUE)


@model(I + 'find')
def ifind(M, c, a, i):
    def f(x, m, res):
        def k(v, m2):
            g = truth(v)
            return [e for e in (('hit', g, hitset(m2, res, SOME(restrict(x, g)))), ('next', NOT(g), m2)) if e[1]]
        return callbody(M, a[1], [x], m, k)
    return search(M, c, itv(M, c, a[0]), f, NONE)


@model(I + 'find_map')
def ifind_map(M, c, a, i):
    def f(x, m, res):
        def k(v, m2):
            g = issome(v)
            return [e for e in (('hit', g, hitset(m2, res, SOME(some(restrict(v, g))) if g else NONE)), ('next', NOT(g), m2)) if e[1]]
        return callbody(M, a[1], [x], m, k)
    return search(M, c, itv(M, c, a[0]), f, NONE)


@model(I + 'position')
def iposition(M, c, a, i):
    def f(x, m, res):
        def k(v, m2):
            g = truth(v)
            return [e for e in (('hit', g, hitset(m2, res, SOME(proj(x, '()', 0, 0)))), ('next', NOT(g), m2)) if e[1]]
        return callbody(M, a[1], [proj(x, '()', 0, 1)], m, k)
    return search(M, c, mk('it', 'enumerate', itv(M, c, a[0])), f, NONE)


@model(I + 'fold')
def ifold(M, c, a, i):
    from mir import merge
    acc = newacc(M)
    m0 = dict(c.mem)
    m0[acc] = strip(a[1])

    def f(x, m):
        def k(v, m2):
            m2 = dict(m2)
            m2[acc] = strip(v)
            return [('next', 1, m2)]
        return callbody(M, a[2], [m[acc], x], m, k)
    ex = consume(M, itv(M, c, a[0]), m0, f)
    G, m = merge([(g, m) for t, g, m in ex])
    m = dict(m)
    v = m.pop(acc)
    c.mem = m
    c.surv = AND(c.surv, G)
    return v


def goes_on(t, v):
    """(guard, the value inside) of going on with a value of type t"""
    if t[0] != 'adt':
        return None
    if t[1] == OPT:
        g = issome(v)
        return g, (some(restrict(v, g)) if g else BOT)
    if t[1] == RES:
        g = isok(v)
        return g, (okv(restrict(v, g)) if g else BOT)
    if t[1] == CF:
        g = TM.is_variant(v, CF, 0)
        return g, (TM.proj(restrict(v, g), CF, 0, 0) if g else BOT)
    return None


def wrap(t, v):
    return SOME(v) if t[1] == OPT else OK(v) if t[1] == RES else AGG(CF, 0, (v,))


@model(I + 'try_for_each')
def itry_for_each(M, c, a, i):
    t = i.dty
    if not t or t[0] != 'adt' or t[1] not in (OPT, RES, CF):
        return None

    def f(x, m, res):
        def k(v, m2):
            g, _ = goes_on(t, v)
            return [e for e in (('hit', NOT(g), hitset(m2, res, restrict(v, NOT(g)) if g != 1 else BOT)), ('next', g, m2)) if e[1]]
        return callbody(M, a[1], [x], m, k)
    return search(M, c, itv(M, c, a[0]), f, wrap(t, UNIT))


@model(I + 'try_fold')
def itry_fold(M, c, a, i):
    from mir import merge
    t = i.dty
    if not t or t[0] != 'adt' or t[1] not in (OPT, RES, CF):
        return None
    acc, res = newacc(M), newacc(M)
    m0 = dict(c.mem)
    m0[acc] = strip(a[1])
    m0[res] = mk('const', 'none')

    def f(x, m):
        def k(v, m2):
            g, w = goes_on(t, v)
            out = []
            if g != 1:
                out.append(('hit', NOT(g), hitset(m2, res, restrict(v, NOT(g)))))
            if g:
                m3 = dict(m2)
                m3[acc] = strip(w)
                out.append(('next', g, m3))
            return out
        return callbody(M, a[2], [m[acc], x], m, k)
    vs, ms = [], []
    for tg, g, m in consume(M, itv(M, c, a[0]), m0, f):
        m = dict(m)
        v, r = m.pop(acc), m.pop(res)
        vs.append((wrap(t, v) if tg == 'next' else r, g))
        ms.append((g, m))
    G, m = merge(ms)
    if not G:
        c.surv = 0
        return BOT
    c.mem = m
    c.surv = AND(c.surv, G)
    return phi(vs)


@model(I + 'scan', I + 'step_by', I + 'cycle')
def iunk(M, c, a, i):
    return None


@model(I + 'for_each')
def ifor_each(M, c, a, i):
    from mir import merge
    ex = consume(M, itv(M, c, a[0]), c.mem, lambda x, m: callbody(M, a[1], [x], m, lambda v, m2: [('next', 1, m2)]))
    G, m = merge([(g, m) for t, g, m in ex])
    c.mem = m
    c.surv = AND(c.surv, G)
    return UNIT


@model(I + 'count')
def icount(M, c, a, i):
    return length(collect_value(M, c, itv(M, c, a[0]), 'vec'))


@model(I + 'last')
def ilast(M, c, a, i):
    C = collect_value(M, c, itv(M, c, a[0]), 'vec')
    g = nonempty(C)
    return OPTG(g, lastof(C)) if g else NONE


@model(I + 'nth')
def inth(M, c, a, i):
    r = deepref(M, c, a[0])
    it = M.val(c, r)
    C = collect_value(M, c, it if it.k == 'it' else mk('it', 'src', it), 'vec')
    g = lt(a[1], length(C))
    M.store(c, r, mk('it', 'src', skipc(C, TM.add(a[1], INT(1)))))
    return OPTG(g, index(C, a[1]))


@model(I + 'sum', I + 'max', I + 'min', I + 'product')
def isum(M, c, a, i):
    C = collect_value(M, c, itv(M, c, a[0]), 'vec')
    return TM.call('iter:' + i.fd['fn'].split('::')[-1], (C,))


@model(I + 'eq')
def ieq_(M, c, a, i):
    x = collect_value(M, c, itv(M, c, a[0]), 'vec')
    y = collect_value(M, c, itv(M, c, a[1]), 'vec')
    return BOOL(eq(x, y))


@model(I + 'cmp')
def icmp_(M, c, a, i):
    x = collect_value(M, c, itv(M, c, a[0]), 'vec')
    y = collect_value(M, c, itv(M, c, a[1]), 'vec')
    return compare(x, y)


@model(I + 'partition')
def ipartition(M, c, a, i):
    return None


@model(I + 'unzip')
def iunzip(M, c, a, i):
    C = collect_value(M, c, itv(M, c, a[0]), 'vec')
    return TUP(collect_value(M, c, mk('it', 'fst', mk('it', 'src', C)), 'vec'), collect_value(M, c, mk('it', 'snd', mk('it', 'src', C)), 'vec'))


@model(I + 'next')
def inext(M, c, a, i):
    r = deepref(M, c, a[0])
    it = M.val(c, r)
    if it.k == 'phi':
        return M.cond(c, [(g, (lambda w=w: inext1(M, c, r, w))) for w, g in it.a[0]])
    return inext1(M, c, r, it)


def inext1(M, c, r, it):
    if it.k == 'it' and it.a[0] == 'opt':
        M.store(c, r, mk('it', 'empty'))
        return it.a[1]
    if it.k == 'it' and it.a[0] == 'empty':
        return NONE
    if it.k == 'it' and it.a[0] in ('mut', 'byref'):
        return None
    C = collect_value(M, c, it if it.k == 'it' else mk('it', 'src', it), 'vec')
    g = nonempty(C)
    if g == 0:
        M.store(c, r, mk('it', 'empty'))
        return NONE
    M.store(c, r, mk('it', 'src', skipc(C, INT(1))))
    return OPTG(g, index(restrict(C, g), INT(0)))


@model('std::iter::Peekable::peek')
def ipeek(M, c, a, i):
    mem = c.mem
    v = inext(M, c, a, i)
    c.mem = mem
    return v


@model('std::iter::Peekable::next_if')
def inext_if(M, c, a, i):
    v = ipeek(M, c, a, i)
    if v is None:
        return None
    g = AND(is_variant(v, OPT, 1), truth(M.callf(c, a[1], [proj(v, OPT, 1, 0)])))
    return M.cond(c, [(g, lambda: inext(M, c, a, i)), (NOT(g), lambda: NONE)])


@model('std::iter::Peekable::next_if_eq')
def inext_if_eq(M, c, a, i):
    v = ipeek(M, c, a, i)
    if v is None:
        return None
    g = AND(is_variant(v, OPT, 1), eq(proj(v, OPT, 1, 0), strip(content(M, c, a[1]))))
    return M.cond(c, [(g, lambda: inext(M, c, a, i)), (NOT(g), lambda: NONE)])


@model('std::iter::DoubleEndedIterator::next_back')
def inext_back(M, c, a, i):
    r = deepref(M, c, a[0])
    it = M.val(c, r)
    C = collect_value(M, c, it if it.k == 'it' else mk('it', 'src', it), 'vec')
    g = nonempty(C)
    M.store(c, r, mk('it', 'src', butlast(C)))
    return OPTG(g, lastof(C))


@model('str::char_indices', 'str::chars', 'str::bytes', 'str::lines', 'str::split_whitespace')
def char_indices(M, c, a, i):
    nm = i.fd['fn'].split('::')[-1]
    if nm in ('chars', 'char_indices'):
        def one(S):
            if S.k == 'call' and S.a[0] == 'substr':
                t, lo, hi = S.a[1]
                return TM.TXT(nm, t, lo, hi, lo)
            n = TM.call('strlen', (S,))
            UNSIGNED.add(n)
            return TM.TXT(nm, S, TM.INT(0), n, TM.INT(0))
        S = strip(content(M, c, a[0]))
        return mk('it', 'src', phi([(one(strip(w)), g) for w, g in branches(S)]))
    return mk('it', 'src', TM.call(i.fd['fn'].split('::')[-1], (content(M, c, a[0]),)))


@model('std::str::CharIndices::as_str', 'std::str::Chars::as_str')
def rest_str(M, c, a, i):
    it = content(M, c, a[0])
    if it.k != 'it' or it.a[0] != 'src' or not TM.is_txt(strip(it.a[1])):
        return None
    k, t, p, e, b = strip(it.a[1]).a[2]
    return TM.call('substr', (t, p, e))


def text_chars(M, c, v):
    """[(its characters, guard)]"""
    it = char_indices(M, c, [v], FakeInfo('str::chars'))
    return [(strip(w), g) for w, g in branches(strip(it.a[1]))]


class FakeInfo:
    def __init__(self, fn):
        self.fd, self.targs, self.argtys, self.dty, self.env = {'fn': fn}, [], [], None, {}


@model('str::starts_with')
def starts_with(M, c, a, i):
    if len(i.argtys) < 2 or i.argtys[1] != ('other', 'char'):
        return None
    return BOOL(OR(*[AND(g, nonempty(T), TM.ieq(TM.call('chr', (T.a[2][1], T.a[2][2])), strip(a[1]))) for T, g in text_chars(M, c, a[0])]))


@model('char::len_utf8')
def len_utf8(M, c, a, i):
    def one(x):
        if x.k == 'call' and x.a[0] == 'chr':
            return TM.char_width(*x.a[1])
        w = TM.call('len_utf8', (x,))
        UNSIGNED.add(w)
        return w
    return phi([(one(strip(w)), g) for w, g in branches(strip(a[0]))])


@model('unicode_segmentation::UnicodeSegmentation::grapheme_indices', 'unicode_segmentation::UnicodeSegmentation::graphemes')
def graphemes(M, c, a, i):
    return mk('it', 'src', TM.call(i.fd['fn'].split('::')[-1], (content(M, c, a[0]), strip(a[1]))))


# ---------------------------------------------------------------- formatting
@model('std::fmt::Formatter::write_str', 'std::fmt::Write::write_str')
def write_str(M, c, a, i):
    r = deepref(M, c, a[0])
    cur = M.deref(c, r)
    M.store(c, r, coll('vec', cur, text_pieces(M.snap(c, a[1]))))
    return OK(UNIT)


def text_pieces(v):
    """a text as the parts it is put together from"""
    v = strip(v)
    if v.k == 'call' and v.a[0] == 'format':
        return tuple(as_pieces(v.a[1][0]))
    if v.k == 'phi':
        return tuple(guard_pieces(text_pieces(w), g) for w, g in v.a[0]) if False else tuple(q for w, g in v.a[0] for q in TM.guard_pieces(text_pieces(w), g))
    return items(v)


def text_of(ps):
    """the text made of these parts"""
    out = []
    for p in ps:
        if p.k == 'item' and p.a[0] == 1 and p.a[1].k == 'str':
            if p.a[1].a[0] == '':
                continue
            if out and out[-1].k == 'item' and out[-1].a[0] == 1 and out[-1].a[1].k == 'str':
                out[-1] = items(STR(out[-1].a[1].a[0] + p.a[1].a[0]))[0]
                continue
        out.append(p)
    if not out:
        return STR('')
    if len(out) == 1 and out[0].k == 'item' and out[0].a[0] == 1 and not (out[0].a[1].k == 'call' and out[0].a[1].a[0] in ('Debug', 'Display')):
        return out[0].a[1]
    return TM.call('format', (coll('vec', None, tuple(out)),))


def template(s):
    """parts of a format template: texts and (argument, options)"""
    import ast
    b = ast.literal_eval(s)
    out, i, n = [], 0, 0
    u16 = lambda i: b[i] | b[i + 1] << 8
    while True:
        k = b[i]
        i += 1
        if k == 0:
            return out if i == len(b) else None
        if k <= 0x80:
            if k == 0x80:
                k = u16(i)
                i += 2
            out.append(b[i:i + k].decode('utf-8'))
            i += k
            continue
        o = []
        if k & 1:
            o.append(('flags', b[i:i + 4].hex()))
            i += 4
        if k & 2:
            o.append(('width', u16(i)))
            i += 2
        if k & 4:
            o.append(('precision', u16(i)))
            i += 2
        if k & 8:
            n = u16(i)
            i += 2
        if k & 48:
            o.append(('dynamic', k & 48))
        out.append((n, tuple(o)))
        n += 1


@model('std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt')
def write_fmt(M, c, a, i):
    return write_str(M, c, a, i)


@model('std::fmt::Formatter::debug_list', 'std::fmt::Formatter::debug_set', 'std::fmt::Formatter::debug_map',
       'std::fmt::Formatter::debug_struct', 'std::fmt::Formatter::debug_tuple')
def debug_new(M, c, a, i):
    k = i.fd['fn'].split('debug_')[1]
    return mk('agg', 'fmtbuilder', 0, (STR(k), strip(a[1]) if len(a) > 1 else UNIT, EMPTYC('vec'), deepref(M, c, a[0])))


def fb_add(M, c, r, new):
    r = deepref(M, c, r)
    b = M.deref(c, r)
    k, n, cur, f = b.a[2]
    M.store(c, r, mk('agg', 'fmtbuilder', 0, (k, n, coll('vec', cur if not (cur.k == 'coll' and cur.a[1] is None and not cur.a[2]) else None, tuple(new)), f)))
    return r


for t in ('DebugStruct', 'DebugTuple', 'DebugMap', 'DebugList', 'DebugSet'):
    def _f(M, c, a, i):
        vals = [M.snap(c, x) for x in a[1:]]
        return fb_add(M, c, a[0], items(TUP(*vals) if len(vals) > 1 else vals[0]))
    for m in ('field', 'entry', 'key', 'value'):
        MODELS['std::fmt::%s::%s' % (t, m)] = _f

    def _g(M, c, a, i):
        C = collect_value(M, c, itv(M, c, a[1], i.argtys[1] if len(i.argtys) > 1 else None), 'vec')
        return fb_add(M, c, a[0], as_pieces(C))
    MODELS['std::fmt::%s::entries' % t] = _g

    def _h(M, c, a, i):
        r = deepref(M, c, a[0])
        b = M.deref(c, r)
        if b.k == 'phi':
            return M.cond(c, [(g, (lambda w=w: fin(M, c, w))) for w, g in b.a[0]])
        return fin(M, c, b)
    MODELS['std::fmt::%s::finish' % t] = _h


def derived(kind, named):
    """what derived Debug implementations call"""
    def f(M, c, a, i):
        vals = [M.snap(c, x) for x in a[2:]]
        ps = [q for n, v in zip(vals[::2], vals[1::2]) for q in items(TUP(n, v))] if named else [q for v in vals for q in items(v)]
        r = deepref(M, c, a[0])
        M.store(c, r, coll('vec', M.deref(c, r), items(TM.call('debug', (STR(kind), strip(M.snap(c, a[1])), coll('vec', None, tuple(ps)))))))
        return OK(UNIT)
    return f


for n in range(1, 6):
    MODELS['std::fmt::Formatter::debug_tuple_field%d_finish' % n] = derived('tuple', False)
    MODELS['std::fmt::Formatter::debug_struct_field%d_finish' % n] = derived('struct', True)


def fin(M, c, b):
    if b.k != 'agg':
        return None
    k, n, cur, f = b.a[2]
    out = M.deref(c, f)
    M.store(c, f, coll('vec', out, items(TM.call('debug', (k, n, cur)))))
    return OK(UNIT)


@model('core::fmt::rt::Argument::new_debug')
def arg_debug(M, c, a, i):
    return TM.call('Debug', (M.snap(c, a[0]),))


@model('core::fmt::rt::Argument::new_display')
def arg_display(M, c, a, i):
    v = M.snap(c, a[0])
    t = i.targs[0] if i.targs else None
    if is_text(t):
        return v
    return TM.call('Display', (v,))


@model('std::fmt::Arguments::from_str')
def args_str(M, c, a, i):
    return a[0]


@model('std::fmt::Arguments::new')
def args_new(M, c, a, i):
    s, args = (strip(M.snap(c, x)) for x in a[:2])
    ps = None
    if s.k == 'str' and s.a[0].startswith('b"') and args.k == 'coll' and args.a[1] is None and all(p.k == 'item' and p.a[0] == 1 for p in args.a[2]):
        ps = template(s.a[0])
    if ps is None:
        return TM.call('fmtargs', (s, args))
    vals = [p.a[1] for p in args.a[2]]
    out = []
    for p in ps:
        if isinstance(p, str):
            out += items(STR(p))
        elif p[0] >= len(vals):
            return TM.call('fmtargs', (s, args))
        elif p[1]:
            out += items(TM.call('formatted', (STR(str(p[1])), vals[p[0]])))
        else:
            out += text_pieces(vals[p[0]])
    return text_of(out)


@model('std::fmt::format')
def fmt_format(M, c, a, i):
    return a[0]


@intrinsic('std::fmt::Debug::fmt')
def dbg_fmt(M, c, a, i):
    return fmt_any(M, c, a, 'Debug')


@intrinsic('std::fmt::Display::fmt')
def dsp_fmt(M, c, a, i):
    return fmt_any(M, c, a, 'Display')


def fmt_any(M, c, a, k):
    r = deepref(M, c, a[1])
    cur = M.deref(c, r)
    M.store(c, r, coll('vec', cur, items(TM.call(k, (M.snap(c, a[0]),)))))
    return OK(UNIT)


# ---------------------------------------------------------------- pretty: documents as sequences of text
def doc(v):
    return as_pieces(v)


def isdoc(v):
    return kind_of(v) == 'vec'


@model('pretty::DocAllocator::text', 'pretty::DocAllocator::as_string')
def dtext(M, c, a, i):
    return coll('vec', None, items(M.snap(c, a[1])))


@model('pretty::DocAllocator::nil')
def dnil(M, c, a, i):
    return EMPTYC('vec')


for n in ('softline_', 'line_'):
    MODELS['pretty::DocAllocator::' + n] = lambda M, c, a, i: EMPTYC('vec')


for n in ('softline', 'line', 'hardline', 'space'):
    MODELS['pretty::DocAllocator::' + n] = lambda M, c, a, i: coll('vec', None, items(TM.call('blank', ())))


@model('pretty::Arena::new')
def arena(M, c, a, i):
    return mk('const', 'arena')


@model('utils::ToDoc::to_doc')
def todoc(M, c, a, i):
    return coll('vec', None, items(TM.call('doc', (M.snap(c, a[0]),))))


def docval(M, c, v):
    v = strip(M.val(c, v))
    if v.k == 'str':
        return coll('vec', None, items(v))
    mark_kind(v, 'vec')
    return v


@model('pretty::DocBuilder::append')
def dappend(M, c, a, i):
    x, y = docval(M, c, a[0]), docval(M, c, a[1])
    return coll('vec', None, tuple(as_pieces(x)) + tuple(as_pieces(y)))


@model('pretty::DocAllocator::concat')
def dconcat(M, c, a, i):
    return dcat(M, c, a[1], i)


def dcat(M, c, it, i):
    return collect_value(M, c, mk('it', 'flatten', itv(M, c, it, i.argtys[1] if len(i.argtys) > 1 else None)), 'vec')


@model('pretty::DocAllocator::intersperse')
def dintersperse(M, c, a, i):
    C = collect_value(M, c, itv(M, c, a[1], i.argtys[1] if len(i.argtys) > 1 else None), 'vec')
    sep = as_pieces(docval(M, c, a[2]))

    def go(ps):
        out = []
        for p in ps:
            if p.k == 'item':
                d = strip(p.a[1])
                out += TM.guard_pieces(as_pieces(d), p.a[0])
                out += TM.guard_pieces(sep, AND(p.a[0], truth(TM.call('more', (d,)))))
            elif p.k == 'for':
                sub_ = go(p.a[3])
                if sub_ is None:
                    return None
                out.append(TM.forp(p.a[0], p.a[1], p.a[2], sub_))
            else:
                return None
        return out
    ps = go(as_pieces(C))
    return None if ps is None else coll('vec', None, tuple(ps))


for n in ('group', 'into_doc', 'nest', 'align', 'hang', 'indent', 'pretty'):
    MODELS['pretty::DocBuilder::' + n] = ident
MODELS['pretty::Doc::pretty'] = ident


@model('pretty::DocBuilder::enclose')
def denclose(M, c, a, i):
    x, y, z = docval(M, c, a[1]), docval(M, c, a[0]), docval(M, c, a[2])
    return coll('vec', None, tuple(as_pieces(x)) + tuple(as_pieces(y)) + tuple(as_pieces(z)))


for n, x, y in (('braces', '{', '}'), ('parens', '(', ')'), ('brackets', '[', ']'), ('angles', '<', '>'), ('single_quotes', "'", "'"), ('double_quotes', '"', '"')):
    MODELS['pretty::DocBuilder::' + n] = lambda M, c, a, i, x=x, y=y: denclose(M, c, (a[0], STR(x), STR(y)), i)
