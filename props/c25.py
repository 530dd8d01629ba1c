"""C25 no hidden state, effects or unordered iteration."""
import re
from rules import *

LEVEL = 'proof'
TECHNIQUE = 'effect scan over every body of the type-checked program: unsafe code, statics, callees and the types they are instantiated with'
EXPLAIN = ('Every function, closure and constant body of the library is enumerated after type checking. Unsafe blocks, functions and implementations, statics that can change, every function of another crate that is called or passed along, and every use of a hash-based collection other than for lookups are reported; '
           'functions of the standard library are allowed by module, so an unknown module is reported. The external crates named in Cargo.toml (im, pretty, dot, anyhow, thiserror, unicode-segmentation, log) are assumed to do no more than their documentation says.')

# modules of the standard library whose safe functions compute from their arguments alone
STD = {'alloc', 'any', 'array', 'ascii', 'borrow', 'boxed', 'cell', 'char', 'clone', 'cmp', 'collections', 'convert', 'default', 'error', 'f32', 'f64', 'fmt', 'hash', 'hint', 'intrinsics', 'iter', 'marker',
       'mem', 'num', 'ops', 'option', 'panicking', 'pin', 'primitive', 'ptr', 'range', 'rc', 'result', 'rt', 'slice', 'str', 'string', 'sync', 'vec', 'io', 'panic', 'ptr_metadata', 'tuple', 'unit', 'u8', 'usize', 'i32', 'u32', 'u64'}
DENY = ('::fs::', '::net::', '::env::', '::process::', '::thread::', '::time::', '::os::', 'std::io::stdin', 'std::io::stdout', 'std::io::stderr', 'std::io::Stdin', 'std::io::Stdout', 'std::io::Stderr', 'io::stdio', '_print', '_eprint',
        'std::io::pipe', 'RandomState', 'DefaultHasher', '::Location::caller', 'backtrace', 'Backtrace', 'LocalKey', 'Instant', 'SystemTime', 'std::fmt::Pointer', 'new_pointer', 'expose', '::addr', 'from_exposed', 'LazyLock', 'OnceLock',
        'sync::mpsc', 'sync::Once', 'atomic::Atomic', 'thread_local', 'set_hook', 'take_hook', 'catch_unwind', 'alloc::alloc', 'alloc::dealloc', 'mem::transmute', 'from_raw', 'mem::zeroed')
CRATES = {'im', 'pretty', 'dot', 'anyhow', 'thiserror', 'unicode_segmentation', 'log', 'core', 'std', 'alloc'}
HASHED = re.compile(r'(HashMap|HashSet|hash_map|hash_set)')
LOOKUP = {'new', 'with_capacity', 'default', 'insert', 'get', 'get_mut', 'get_key_value', 'contains_key', 'contains', 'remove', 'remove_entry', 'len', 'is_empty', 'entry', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'or_default',
          'and_modify', 'clear', 'reserve', 'eq', 'ne', 'clone', 'index', 'from_iter', 'extend', 'from', 'replace', 'take', 'shrink_to_fit', 'drop', 'is_subset', 'is_superset', 'is_disjoint', 'key', 'into_mut', 'get_or_insert_with', 'capacity', 'ptr_eq', 'unit', 'update', 'without'}


def refs(x, out, at=None):
    """every function named in a body"""
    if isinstance(x, dict):
        if 'fndef' in x and isinstance(x['fndef'], dict):
            out.append(x['fndef'])
        elif isinstance(x.get('fn'), str) and 'args' in x:
            out.append(x)
        for v in x.values():
            refs(v, out)
    elif isinstance(x, list):
        for v in x:
            refs(v, out)


def spans(b):
    for bl in b['blocks']:
        for st in bl['s']:
            yield st, (st[-1] if isinstance(st[-1], str) else b['span'])
        yield bl['t'], bl['at']


def path_of(f):
    return f.get('res') or f['fn']


def root(p):
    """crate the function belongs to, None for operators of primitive types and opaque parameters"""
    p = p.lstrip('<&[*')
    p = re.sub(r'^(mut |const |dyn )', '', p)
    m = re.match(r'[A-Za-z_0-9]+', p)
    return m.group(0) if m else None


def trait_of(p):
    m = re.match(r'^<(.*) as (.*?)>::', p)
    return m.group(2) if m else None


def hashed_args(a, f):
    out = []
    for i in f.get('rargs') or f.get('args') or []:
        t = a.p.tys[i]
        while t['k'] == 'ref':
            t = a.p.tys[t['of']]
        if t['k'] == 'adt' and HASHED.search(t['def']):
            out.append(t['def'])
    return out


def effects(a):
    n = 0
    for name, b in a.p.bodies.items():
        a.fns.add(name)
        ok = True
        for st, at in spans(b):
            fs = []
            refs(st, fs)
            for f in fs:
                n += 1
                for p in {path_of(f), f['fn']}:
                    if f.get('rlocal') or f.get('local') and not f.get('res'):
                        continue
                    why = bad(p)
                    if why:
                        ok = False
                        a.ob(why, False, name, '%s at %s' % (p, at), key='%s|%s|%s' % (why, name, p))
                h = hashed_args(a, f)
                p = path_of(f)
                if (h or HASHED.search(p)) and p.split('::')[-1] not in LOOKUP and not f.get('rlocal'):
                    ok = False
                    a.ob('no hash-based collection is iterated', False, name, '%s of %s at %s' % (p, ', '.join(h) or 'a hash-based collection', at), key='hash|%s|%s' % (name, p))
                if h and p.split('::')[-1] in ('extend', 'from_iter', 'from') and not HASHED.search(p.split(' as ')[0]):
                    ok = False
                    a.ob('no hash-based collection is iterated', False, name, '%s of %s at %s' % (p, ', '.join(h), at), key='hash|%s|%s' % (name, p))
            if isinstance(st, list) and st[0] == '=' and isinstance(st[2], list):
                r = st[2]
                if r[0] == 'cast' and 'Expose' in str(r[1]):
                    ok = False
                    a.ob('addresses are not used as numbers', False, name, 'at %s' % at, key='addr|' + name)
                if 'thread_local_ref' in str(r[:2]).lower() or 'ThreadLocalRef' in str(r):
                    ok = False
                    a.ob('no thread-local state', False, name, 'at %s' % at, key='tls|' + name)
        if ok:
            a.ob('calls only functions that compute from their arguments', True, name)
    a.sites += n
    a.note('%d references to functions in %d bodies' % (n, len(a.p.bodies)))


def bad(p):
    for d in DENY:
        if d in p:
            return 'no input, output, clock, environment, randomness, global or address-dependent function is used'
    r = root(p)
    if r in ('std', 'core', 'alloc') and not p.startswith('<'):
        parts = p.split('::')
        if len(parts) > 1 and parts[1] not in STD:
            return 'only known modules of the standard library are used'
        if len(parts) > 1 and parts[1] == 'io' and not p.startswith(('std::io::Cursor', 'std::io::Write', 'std::io::Error', 'std::io::Result')):
            return 'no input, output, clock, environment, randomness, global or address-dependent function is used'
    elif p.startswith('<'):
        t = trait_of(p)
        if t and t.startswith('std::io') and not p.startswith(('<std::io::Cursor', '<std::vec::Vec', '<&mut std::vec::Vec')):
            return 'no input, output, clock, environment, randomness, global or address-dependent function is used'
    elif '::' in p and r and r[0].islower() and r not in CRATES and r not in PRIM:
        return 'only the crates of Cargo.toml are used'
    return None


PRIM = {'str', 'char', 'bool', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64', 'T', 'const', 'mut', 'dyn'}


def unsafe_code(a):
    for u in a.p.d['unsafe']:
        if not u['derived']:
            a.ob('no unsafe code', False, u['span'], 'unsafe block', key='unsafe|' + u['span'])
    for i in a.p.impls:
        if i.get('unsafe') and not i['derived']:
            a.ob('no unsafe code', False, i['span'], 'unsafe implementation of %s for %s' % (i['trait'], i['self']), key='unsafe|%s' % i['self'])
    for n, b in a.p.bodies.items():
        if b.get('unsafe'):
            a.ob('no unsafe code', False, n, 'unsafe function')
    a.ob('no unsafe code', True, 'whole crate')


def statics(a):
    k = 0
    for i in a.p.impls:
        if 'static' in i:
            k += 1
            ok = not i['mut'] and i['freeze'] and not i['thread_local']
            a.ob('no global state', ok, i['static'], 'static at %s can change' % i['span'], key='static|' + i['static'])
    a.ob('no global state', True, 'whole crate')
    a.note('%d statics' % k)


RULES = [('effects', effects), ('unsafe code', unsafe_code), ('statics', statics)]
