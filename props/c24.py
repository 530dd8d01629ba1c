"""C24 grammars are immutable; parts cannot outlive their owner or be made up."""
import os, shutil, subprocess, tempfile, glob
from rules import *
from props.gram import GB, GR, RU, PR, PE, EL, PK
from props.trees import TO, TH, ND, AL, LF, BR, NC, PARTS
from props import c25

LEVEL = 'proof'
TECHNIQUE = 'structural rules over the type-checked program (fields, signatures, construction sites, call graph), the summary of rule comparison, and compile-fail witnesses with compiling twins'
EXPLAIN = ('Grammar data reaches no cell, lock or atomic, no exported function takes or gives mutable access to it, no unsafe code exists, and every field of grammar and tree parts is private; values of these types are constructed only behind the validating constructor or from a part of the same kind of owner. '
           'Comparing rules is summarised from MIR and must not return for rules of different grammars. Programs that let a part outlive its owner, change a grammar or forge a part must be refused by the compiler with the expected error, while their twins that respect the rule must compile.')

RI, PI = GB + 'RuleInner', GB + 'ProdInner'
GPARTS = (GR, RI, PI, RU, PR, PE, EL, PK)
DATA = (GR, RI, PI, PE, EL)
CELLT = ('::Cell', '::RefCell', '::UnsafeCell', '::OnceCell', '::LazyCell', '::Mutex', '::RwLock', '::OnceLock', '::LazyLock', 'atomic::Atomic', '::SyncUnsafeCell', '::ReentrantLock')


def walk(a, i, seen=None, into=True):
    """every type that occurs in type i; the contents of local structs too"""
    seen = set() if seen is None else seen
    if i is None or i in seen:
        return seen
    seen.add(i)
    t = a.p.tys[i]
    for k in ('args', 'upvars'):
        for j in t.get(k) or []:
            walk(a, j, seen, into)
    of = t.get('of')
    for j in (of if isinstance(of, list) else [of] if of is not None else []):
        walk(a, j, seen, into)
    if into and t['k'] == 'adt' and a.p.adts.get(t['def'], {}).get('local'):
        for v in a.p.adts[t['def']]['variants']:
            for f in v['fields']:
                walk(a, f['ty'], seen, into)
    return seen


def adts_in(a, i, into=False):
    return {a.p.tys[j]['def'] for j in walk(a, i, None, into) if a.p.tys[j]['k'] == 'adt'}


def frozen_data(a):
    for d in (GR, RU, PR):
        if d not in a.p.adts:
            raise Missing(d)
        for v in a.p.adts[d]['variants']:
            for f in v['fields']:
                bad = [x for x in adts_in(a, f['ty'], True) if any(c in x for c in CELLT)]
                ptr = [x for x in walk(a, f['ty']) if a.p.tys[x]['k'] == 'ptr' or (a.p.tys[x]['k'] == 'ref' and a.p.tys[x]['mut'])]
                loc = [a.p.tys[x]['str'] for x in walk(a, f['ty']) if a.p.tys[x]['k'] == 'dyn']
                a.ob('grammar data has no place that can change behind a shared reference', not bad and not ptr and not loc, '%s.%s' % (d, f['name']), 'contains %s' % (bad or loc or 'a pointer or mutable reference'), key='cell|%s|%s' % (d, f['name']))


def local_adts(a):
    return {d for d, v in a.p.adts.items() if v['local']}


def exported(a):
    return [(n, b) for n, b in a.p.bodies.items() if b.get('exported') and b.get('kind') == 'fn' or (b.get('exported') and b.get('kind') not in ('closure', 'promoted', 'const', 'static') and '#promoted' not in n)]


def no_mutation(a):
    k = 0
    for n, b in exported(a):
        k += 1
        ok = True
        for i in range(b['nargs'] + 1):
            top = b['locals'][i]['ty']
            for j in walk(a, top, None, False):
                t = a.p.tys[j]
                if t['k'] == 'ref' and t['mut'] or (i == 0 and t['k'] == 'adt' and ('IterMut' in t['def'] or 'ValuesMut' in t['def'] or 'OccupiedEntry' in t['def'])):
                    inner = adts_in(a, t['of'] if t['k'] == 'ref' else j, False) & set(DATA + (RU, PR))
                    # an iterator or builder that only carries shared references to parts cannot change them
                    tgt = t['of'] if t['k'] == 'ref' else j
                    if inner and owns(a, tgt):
                        ok = False
                        a.ob('no public operation takes or gives mutable access to a grammar', False, n, '%s %s' % ('takes' if i else 'returns', sorted(inner)), key='mut|' + n)
        if ok and set().union(*[adts_in(a, b['locals'][i]['ty']) for i in range(b['nargs'] + 1)]) & set(GPARTS):
            a.ob('no public operation takes or gives mutable access to a grammar', True, n)
    a.sites += k
    for im in a.p.impls:
        t = im.get('trait') or ''
        if t.split('<')[0].split('::')[-1] in ('DerefMut', 'IndexMut', 'AsMut', 'BorrowMut') and any(im['self'].split('<')[0] == d or im['self'].split('<')[0].endswith('::' + d.split('::')[-1]) for d in GPARTS + PARTS):
            a.ob('no public operation takes or gives mutable access to a grammar', False, '%s for %s' % (t, im['self']), 'implemented at %s' % im['span'])
    c25.unsafe_code(a)


OWNED = {'std::vec::Vec', 'std::option::Option', 'std::boxed::Box', 'std::collections::BTreeMap', 'std::collections::BTreeSet', 'std::result::Result'}


def owns(a, i, seen=None, depth=0):
    """whether mutable access to a value of this type reaches the inside of a finished grammar or rule"""
    t = a.p.tys[i]
    if t['k'] == 'adt':
        if t['def'] in (GR, RI, RU, PR):
            return True
        if t['def'] in (PI, PE, EL):
            return t['def'] == PI
        if 'IterMut' in t['def'] or 'ValuesMut' in t['def'] or 'OccupiedEntry' in t['def']:
            return any(owns_any(a, x) for x in t['args'])
        if t['def'] in OWNED or not a.p.adts.get(t['def'], {}).get('local'):
            return any(owns(a, x, seen, depth + 1) for x in t['args'] if a.p.tys[x]['k'] != 'ref')
        return False
    if t['k'] in ('slice', 'array'):
        return owns(a, t['of'] if not isinstance(t['of'], list) else t['of'][0])
    if t['k'] == 'tuple':
        return any(owns(a, x) for x in t['of'] if a.p.tys[x]['k'] != 'ref')
    return False


def owns_any(a, i):
    return bool(adts_in(a, i) & {GR, RI, PI, PE, EL})


def private(a):
    for d in (GR, RI, PI, RU, PR, PE, PK, TO, TH, ND, AL, LF, BR):
        if d not in a.p.adts:
            if d in (RI, PI):
                continue
            raise Missing(d)
        if not a.p.adts[d].get('public', True) and d in (RI, PI):
            continue
        # the stored representation is not nameable outside: its fields need no check when the type is not exported
        pub = [f['name'] for v in a.p.adts[d]['variants'] for f in v['fields'] if f['public']]
        a.ob('fields of parts are private', not pub or d in (RI, PI), d, 'public field %s' % ', '.join(pub), key='field|' + d)


def agg_sites(a, adt):
    out = []
    for n, b in a.p.bodies.items():
        for bl in b['blocks']:
            for st in bl['s']:
                if st[0] == '=' and isinstance(st[2], list) and st[2][0] == 'agg' and adt in str(st[2][1]):
                    if agg_is(st[2][1], adt):
                        out.append(n)
    return sorted(set(out))


def agg_is(k, adt):
    if isinstance(k, (list, tuple)):
        return adt in [x for x in k if isinstance(x, str)]
    if isinstance(k, dict):
        return adt in [x for x in k.values() if isinstance(x, str)]
    return k == adt


def edges(a):
    E = {}
    for n, b in a.p.bodies.items():
        s = E.setdefault(n, set())
        fs = []
        for st, at in c25.spans(b):
            c25.refs(st, fs)
        for f in fs:
            for p in {f.get('res') or '', f['fn']}:
                if p in a.p.bodies:
                    s.add(p)
        base = n
        while '::{closure' in base:
            base = base[:base.rindex('::{closure')]
            if base in a.p.bodies:
                E.setdefault(base, set()).add(n)
                break
    return E


def reach_back(E, targets, without):
    back = {}
    for x, ys in E.items():
        for y in ys:
            back.setdefault(y, set()).add(x)
    seen, todo = set(), [t for t in targets if t not in without]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [y for y in back.get(x, ()) if y not in without and y not in seen]
    return seen


def construction(a):
    E = edges(a)
    # grammars: every way to one goes through the validating constructor
    new = GR + '::new'
    a.body(new)
    sites = agg_sites(a, GR)
    copies = [n for n in sites if is_copy(a, n, GR)]
    ways = reach_back(E, [s for s in sites if s not in copies], {new})
    exp = {n for n, b in exported(a)}
    bad = sorted(ways & exp)
    a.ob('grammars are only made by the validating constructor', sites and not bad, new, 'made in %s, which callers reach through %s' % (', '.join(sorted(set(sites) & ways)), ', '.join(bad)), key='make|' + GR)
    # borrowed parts: only out of something that holds one
    for d, src in ((RU, (GR, RU, PR)), (PR, (GR, RU, PR)), (PK, (PR, RU, GR, PK)), (TH, (TO,) + PARTS), (ND, (TO,) + PARTS), (AL, (TO,) + PARTS), (LF, (TO,) + PARTS), (BR, (TO,) + PARTS)):
        sites = agg_sites(a, d)
        a.ob('construction sites of %s' % d, bool(sites), d, 'none found')
        for n in sorted(reach_back(E, sites, set()) & exp):
            b = a.p.bodies[n]
            ret = adts_in(a, b['locals'][0]['ty'])
            if d not in ret and not opaque(a, b['locals'][0]['ty']):
                continue
            args = set().union(set(), *[adts_in(a, b['locals'][i]['ty'], True) for i in range(1, b['nargs'] + 1)])
            a.ob('parts are only obtained from their owner or its parts', bool(args & set(src)), n, 'returns %s from arguments that hold none' % d, key='make|%s|%s' % (d, n))
            if d in (ND, AL, LF, BR):
                made_up(a, n, b)
    # nothing exported accepts the stored representation
    for n, b in exported(a):
        for i in range(1, b['nargs'] + 1):
            got = adts_in(a, b['locals'][i]['ty']) & {RI, PI}
            if got and not is_inner_method(b):
                a.ob('no public operation accepts the stored representation of rules', False, n, 'takes %s' % sorted(got))
    a.sites += len(E)


def made_up(a, n, b):
    """handles do not carry numbers that callers choose"""
    import mir
    nums = [i for i in range(1, b['nargs'] + 1) if a.p.ty(b['locals'][i]['ty'], {}) in [('other', x) for x in mir.INTS]]
    if nums:
        args = [SYM('arg%d' % i) for i in range(1, b['nargs'] + 1)]
        v = strip(a.app(n, *args))
        bad = [x for x in subterms(v) if x.k == 'agg' and x.a[0] in PARTS and any(strip(y) is args[i - 1] or (args[i - 1] in y.fv and strip(y).k in ('lin', 'phi', 'sym')) for y in x.a[2] for i in nums)]
        a.ob('handles are not made from numbers that callers choose', not bad, n, 'returns %s' % show(v)[:300])


def is_inner_method(b):
    return (b.get('self_name') or '') in (RI, PI)


def opaque(a, i):
    return a.p.tys[i]['k'] in ('alias', 'dyn')


def is_copy(a, n, adt):
    """a function that only copies an existing value"""
    b = a.p.bodies[n]
    return b['nargs'] == 1 and n.split('::')[-1] in ('clone', 'to_owned') and adt in adts_in(a, b['locals'][1]['ty'])


INLINE = {'#cmp': True}


def comparisons(a):
    import order
    g1, g2 = SYM('grammar1'), SYM('grammar2')
    n1, n2 = SYM('nt1'), SYM('nt2')
    r1 = unsome(strip(a.app(GR + '::try_get_rule', g1, n1)))
    r2 = unsome(strip(a.app(GR + '::try_get_rule', g2, n2)))
    same = TM.ptr_eq(g1, g2)
    k = 0
    for tr, ms in (('std::cmp::PartialEq', ('eq', 'ne')), ('std::cmp::PartialOrd', ('partial_cmp', 'lt', 'le', 'gt', 'ge')), ('std::cmp::Ord', ('cmp', 'max', 'min', 'clamp'))):
        for m in ms:
            try:
                f = a.impl(RU, tr, m)
            except Missing:
                if m in ('eq', 'partial_cmp', 'cmp'):
                    raise
                continue
            S = a.S(f, INLINE, [r1, r2])
            ends = OR(*[p.happens() for p in S.panics]) if S.panics else 0
            a.never('comparing rules of different grammars gives no answer', f, AND(S.surv, NOT(ends), NOT(same)), 'can return for rules of different grammars')
            a.never('comparing rules of one grammar gives an answer', f, AND(ends, same), 'can panic for rules of one grammar')
            k += 1


# ------------------------------------------------------------------ witnesses
PRE = '''#![allow(unused, dead_code)]
use bongo::grammar::{build, Elem, Grammar, NonTerminal, Prod, ProdElement, ProdKey, Rule, Terminal};
use bongo::grammar::passes::{PassContext, nullable::Nullable, firsts::Firsts};
use bongo::parsers::tree::{TreeOwner, TreeHandle, Node, Alternative, Leaf, Branch, NodeContent};
use bongo::state::ProdState;
use bongo::utils::Name;
type G = Grammar<Terminal, NonTerminal, Name, ()>;
type O = TreeOwner<Terminal, Name, String>;
fn g() -> G { let x = NonTerminal::new("x"); build(&x, |b| { b.add_rule(&x, |r| { r.add_prod(Name::new("p"), (), |p| { p.add_term(Terminal::new("a")); }); }); }).ok().unwrap() }
fn leaf(o: &O) -> Node<Terminal, Name, String> { o.handle().make_leaf_node(Terminal::new("a"), String::new()) }
'''
FORM = '''fn main() {
    let kept;
    %s
    {
        let %s = %s;
        kept = %s;
        %s
    }
    %s
}
'''
# what is borrowed from an owner: (name, owner, expression, use)
BORROWED = [
    ('rule', 'G', 'o.rules().next().unwrap()', 'kept.head();'),
    ('rule by name', 'G', 'o.get_rule(&NonTerminal::new("x"))', 'kept.head();'),
    ('rule looked up', 'G', 'o.try_get_rule(&NonTerminal::new("x"))', 'drop(kept);'),
    ('rule set', 'G', 'o.rule_set()', 'drop(kept);'),
    ('rule head', 'G', 'o.rules().next().unwrap().head()', 'drop(kept.clone());'),
    ('start symbol', 'G', 'o.start_nt()', 'drop(kept.clone());'),
    ('production', 'G', 'o.prods().next().unwrap()', 'kept.num_elements();'),
    ('production of a rule', 'G', 'o.rules().next().unwrap().prods().next().unwrap()', 'kept.num_elements();'),
    ('production head', 'G', 'o.prods().next().unwrap().head()', 'drop(kept.clone());'),
    ('production elements', 'G', 'o.prods().next().unwrap().prod_elements()', 'kept.len();'),
    ('element', 'G', 'o.prods().next().unwrap().element_at(0).unwrap()', 'kept.as_term();'),
    ('first element', 'G', 'o.prods().next().unwrap().first_elem().unwrap()', 'kept.as_term();'),
    ('elements', 'G', 'o.prods().next().unwrap().elements().next().unwrap()', 'kept.as_term();'),
    ('production element', 'G', 'o.prods().next().unwrap().prod_element_at(0).unwrap()', 'kept.id();'),
    ('action key', 'G', 'o.prods().next().unwrap().action_key()', 'drop(kept.clone());'),
    ('action value', 'G', 'o.prods().next().unwrap().action_value()', 'drop(kept.clone());'),
    ('cursor', 'G', 'ProdState::from_start(o.prods().next().unwrap())', 'kept.is_complete();'),
    ('cursor element', 'G', 'ProdState::from_start(o.prods().next().unwrap()).next_elem().unwrap()', 'kept.as_term();'),
    ('pass context', 'G', 'PassContext::new(&o)', 'drop(kept);'),
    ('tree handle', 'O', 'o.handle()', 'kept.make_node();'),
    ('node', 'O', 'leaf(&o)', 'kept.alts().count();'),
    ('fresh node', 'O', 'o.handle().make_node()', 'kept.alts().count();'),
    ('handle of a node', 'O', 'leaf(&o).handle()', 'kept.make_node();'),
    ('alternative', 'O', 'leaf(&o).alts().next().unwrap()', 'kept.content();'),
    ('fresh alternative', 'O', 'o.handle().make_leaf_alt(Terminal::new("a"), String::new())', 'kept.content();'),
    ('handle of an alternative', 'O', 'leaf(&o).alts().next().unwrap().handle()', 'kept.make_node();'),
    ('content', 'O', 'leaf(&o).alts().next().unwrap().content()', 'drop(kept);'),
    ('branch children', 'O', '{ let alt = o.handle().make_branch_node(Name::new("b"), vec![leaf(&o)]).alts().next().unwrap(); let b = match alt.content() { NodeContent::Branch(b) => b, _ => panic!() }; let n = b.nodes().next().unwrap(); n }', 'kept.alts().count();'),
]
TAIL = 'fn main() {}\n'
FORGED = [
    # name, good, bad, codes
    ('changing a field of a grammar', 'fn f(x: &mut G) { let _ = x.start_nt(); }', 'fn f(x: &mut G) { x.start_symbol = NonTerminal::new("y"); }', ('E0616', 'E0609')),
    ('changing the rules of a grammar', 'fn f(x: &mut G) { let _ = x.rule_set(); }', 'fn f(x: &mut G) { x.rule_set.clear(); }', ('E0616', 'E0609', 'E0615')),
    ('changing the elements of a production', 'fn f(x: Prod<Terminal, NonTerminal, Name, ()>) { x.prod_elements().len(); }', 'fn f(x: Prod<Terminal, NonTerminal, Name, ()>) { x.prod_elements().clear(); }', ('E0596',)),
    ('changing a nonterminal in place', 'fn f(x: Rule<Terminal, NonTerminal, Name, ()>) { let y: &NonTerminal = x.head(); }', 'fn f(x: Rule<Terminal, NonTerminal, Name, ()>) { let y: &mut NonTerminal = x.head(); }', ('E0308',)),
    ('changing an action value in place', 'fn f(x: Prod<Terminal, NonTerminal, Name, ()>) { let y: &() = x.action_value(); }', 'fn f(x: Prod<Terminal, NonTerminal, Name, ()>) { let y: &mut () = x.action_value(); }', ('E0308',)),
    ('replacing a grammar while a part of it is borrowed', 'fn f(mut x: G) { let r = x.rules().next().unwrap().head().clone(); x = g(); drop(r); }', 'fn f(mut x: G) { let r = x.prods().next().unwrap(); x = g(); r.head(); }', ('E0506',)),
    ('moving a grammar while a part of it is borrowed', 'fn f(x: G) { let r = x.rules().next().unwrap().head().clone(); drop(x); drop(r); }', 'fn f(x: G) { let r = x.get_rule(&NonTerminal::new("x")); drop(x); r.head(); }', ('E0505',)),
    ('moving a tree while a node of it is borrowed', 'fn f(x: O) { let r = leaf(&x).alts().count(); drop(x); drop(r); }', 'fn f(x: O) { let r = leaf(&x); drop(x); r.alts().count(); }', ('E0505',)),
    ('calling the unchecked constructor', 'fn f() -> G { g() }', 'fn f() -> G { Grammar::new(NonTerminal::new("x"), vec![]).ok().unwrap() }', ('E0624', 'E0599')),
    ('a default grammar', 'fn t<X: Clone>() {} fn f() { t::<G>(); }', 'fn t<X: Default>() {} fn f() { t::<G>(); }', ('E0277',)),
    ('a default node', "fn t<'a, X: Clone>() {} fn f<'a>() { t::<Node<'a, Terminal, Name, String>>(); }", "fn t<'a, X: Default>() {} fn f<'a>() { t::<Node<'a, Terminal, Name, String>>(); }", ('E0277',)),
    ('a default tree handle', "fn t<'a, X: Clone>() {} fn f<'a>() { t::<TreeHandle<'a, Terminal, Name, String>>(); }", "fn t<'a, X: Default>() {} fn f<'a>() { t::<TreeHandle<'a, Terminal, Name, String>>(); }", ('E0277',)),
    ('the index of a node', 'fn f(x: &Node<Terminal, Name, String>) { x.alts(); }', 'fn f(x: &Node<Terminal, Name, String>) { x.node_idx; }', ('E0616', 'E0609')),
]


def library(a):
    """rlib metadata of the current source"""
    import check as C
    import fcntl
    tgt = os.path.join(C.CACHE, 'wit-%d' % os.getpid())
    had = os.path.exists(C.REPO + '/Cargo.lock')
    if not had:
        shutil.copy(C.V + '/Cargo.lock.repo', C.REPO + '/Cargo.lock')
    env = {k: v for k, v in os.environ.items() if k not in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR')}
    env['CARGO_TARGET_DIR'] = tgt
    r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path', C.REPO + '/Cargo.toml'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not had and os.path.exists(C.REPO + '/Cargo.lock'):
        os.unlink(C.REPO + '/Cargo.lock')
    got = glob.glob(tgt + '/debug/**/libbongo*.rmeta', recursive=True)
    if r.returncode or not got:
        raise Unsupported('cannot compile the library for the witnesses: %s' % r.stdout[-500:])
    deps = {os.path.dirname(x) for x in glob.glob(tgt + '/debug/**/*.[rs][mol]*', recursive=True)}
    return tgt, got[0], sorted(deps)


def compiles(src, lib, deps, d, i):
    f = os.path.join(d, 'w%d.rs' % i)
    open(f, 'w').write(src)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2018', '--emit=metadata', '--crate-type', 'bin', '--crate-name', 'w%d' % i, '--out-dir', d, '--extern', 'bongo=' + lib, '--error-format', 'short'] + [x for p in deps for x in ('-L', 'dependency=' + p)] + [f],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    import re
    return r.returncode == 0, set(re.findall(r'error\[(E\d+)\]', r.stdout)), r.stdout


def witnesses(a):
    tgt, lib, deps = library(a)
    d = tempfile.mkdtemp(dir=tgt)
    jobs = []
    for name, own, expr, use in BORROWED:
        mkv = 'g()' if own == 'G' else 'O::new()'
        bad = PRE + FORM % ('', 'o', mkv, expr, '', use)
        good = PRE + FORM % ('let o = %s;' % mkv, '_unused', '()', expr, '', use)
        jobs.append((name + ' cannot outlive its owner', good, bad, ('E0597', 'E0716', 'E0505')))
    for name, good, bad, codes in FORGED:
        jobs.append((name + ' is refused', PRE + good + '\n' + TAIL, PRE + bad + '\n' + TAIL, codes))
    try:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda x: compiles(x[1], lib, deps, d, x[0]), [(2 * i + j, s) for i, (_, gd, bd, _) in enumerate(jobs) for j, s in enumerate((gd, bd))]))
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    for i, (name, gd, bd, codes) in enumerate(jobs):
        (ok, _, out), (ok2, err, out2) = rs[2 * i], rs[2 * i + 1]
        a.ob('the twin of a refused program compiles', ok, name, out[-600:], key='twin|' + name)
        a.ob('the compiler refuses it', not ok2 and err and err <= set(codes), name, 'compiles' if ok2 else 'other errors: ' + out2[-600:], key='refuse|' + name)
    a.note('%d witnesses with twins' % len(jobs))


RULES = [('no interior mutability', frozen_data), ('no mutable access', no_mutation), ('private fields', private), ('construction', construction), ('comparing rules', comparisons), ('witnesses', witnesses)]
