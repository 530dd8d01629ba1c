#!/usr/bin/env python3
"""check.py ID   - decides property ID for the current source of /repo (static analysis of its MIR)."""
import fcntl, glob, importlib, json, os, re, shutil, signal, subprocess, sys, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BONGO_REPO', '/repo')
CACHE = os.path.join(V, '.cache')
sys.path[:0] = [os.path.join(V, 'engine'), V]
sys.setrecursionlimit(20000)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    drv = os.path.join(V, 'driver', 'target', 'release', 'mirx')
    env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly')
    for k in ('RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR'):
        env.pop(k, None)
    src = max(os.path.getmtime(f) for f in glob.glob(V + '/driver/src/*') + [V + '/driver/Cargo.toml'])
    if not os.path.exists(drv) or os.path.getmtime(drv) < src:
        r = sh(['cargo', 'build', '--release', '--offline'], cwd=V + '/driver', env=env)
        if not os.path.exists(drv):
            print(r.stdout)
            raise SystemExit('cannot build the MIR driver')
    return drv


def extract(out, asserts='false'):
    """MIR, types and impls of the library target, from /repo's current working tree, without (or with) debug assertions"""
    drv = build_driver()
    lib = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip() + '/lib'
    tgt = os.path.join(CACHE, 'target' if asserts == 'false' else 'target-da')
    for pat in ('debug/build/bongo', 'debug/build/bongo-*', 'debug/.fingerprint/bongo-*', 'debug/incremental/bongo-*'):
        for d in glob.glob(os.path.join(tgt, pat)):
            shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, LD_LIBRARY_PATH=lib, CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=asserts, CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true",
               MIRX_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS'):
        env.pop(k, None)
    r = sh(['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path', REPO + '/Cargo.toml'], env=env)
    if r.returncode or not os.path.exists(out):
        print(r.stdout[-3000:])
        raise SystemExit('cannot compile /repo')
    return out


def extract_both(out):
    """the program, and the program with its debug assertions when that is a different one"""
    from concurrent.futures import ThreadPoolExecutor
    build_driver()
    had_lock = os.path.exists(REPO + '/Cargo.lock')
    if not had_lock:
        shutil.copy(V + '/Cargo.lock.repo', REPO + '/Cargo.lock')
    try:
        with ThreadPoolExecutor(2) as ex:
            rs = [ex.submit(extract, out), ex.submit(extract, out + '.da', 'true')]
            rs = [r.result() for r in rs]
    finally:
        if not had_lock:
            os.unlink(REPO + '/Cargo.lock')
    # crate hashes depend on the build options
    a, b = (re.sub(r'\[[0-9a-f]{4}\]', '', open(f).read()) for f in rs)
    if a == b:
        os.unlink(rs[1])
        return [out]
    return rs


def known(pid):
    out = []
    f = V + '/known_findings.json'
    if os.path.exists(f):
        for e in json.load(open(f)):
            if e.get('status') == 'known' and e['property'] == pid:
                out.append(e)
    return out


def run(pid, jpath, tier):
    from mir import Prog, Unsupported
    import rules
    t0 = time.time()
    mod = importlib.import_module('rules_' + pid.lower()) if os.path.exists(V + '/engine/rules_%s.py' % pid.lower()) else importlib.import_module('props.' + pid.lower())
    p = Prog(jpath)
    a = rules.A(p, pid, tier)
    for name, fn in mod.RULES:
        n0 = len(a.obs)
        try:
            fn(a)
            if len(a.obs) == n0:
                a.ob(name, False, '-', 'rule matched nothing', '%s|empty' % name)
        except rules.Missing as e:
            a.ob(name, False, str(e), 'anchor not found in the current source', '%s|missing|%s' % (name, e))
        except Unsupported as e:
            a.ob(name, False, '-', 'cannot be established: %s' % e, '%s|unsupported' % name)
        except (TimeoutError, MemoryError, RecursionError) as e:
            a.ob(name, False, '-', 'cannot be established: %s' % type(e).__name__, '%s|limit' % name)
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            a.ob(name, False, '-', 'cannot be established: %s: %s\n%s' % (type(e).__name__, e, tb), '%s|error' % name)
    bad = [o for o in a.obs if not o.ok]
    kn = known(pid)
    kk = {e['key']: e for e in kn}
    new, seen = [], set()
    for o in bad:
        if o.key in kk:
            seen.add(o.key)
        else:
            new.append(o)
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, kk[k]['what']))
    rep = None
    os.makedirs(V + '/evidence', exist_ok=True)
    if new:
        rep = V + '/evidence/%s.violation.txt' % pid
        with open(rep, 'w') as f:
            for o in new:
                f.write('rule: %s\nat: %s\n  %s\nkey: %s\n\n' % (o.rule, o.where, o.detail, o.key))
        for o in new[:8]:
            print('%s: %s\n  %s' % (o.rule, o.where, o.detail[:3000]))
    good = len([o for o in a.obs if o.ok])
    by = {}
    for o in a.obs:
        by.setdefault(o.rule, [0, 0])[0 if o.ok else 1] += 1
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': mod.LEVEL, 'coverage': {
        'obligations': len(a.obs), 'discharged': good, 'known_findings': len(seen),
        'functions_analysed': len(a.fns), 'functions': sorted(a.fns), 'loops_summarised': a.loops, 'sites': a.sites,
        'rules': {k: {'discharged': v[0], 'failed': v[1]} for k, v in by.items()},
        'samples': ['%s: %s' % (o.rule, o.where) for o in a.obs[:12]],
        'checker_cmd': 'python3 check.py %s' % pid,
        'trusted_base': ['rustc nightly MIR construction', 'engine/*.py summaries and models of std', 'obligations in props/%s.py' % pid.lower()],
        'notes': a.notes,         'explanation': mod.EXPLAIN}, 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('%s: %d obligations discharged over %d functions%s' % (pid, good, len(a.fns), ', %d known finding(s)' % len(seen) if seen else ''))
    return 0


def main():
    ids = sys.argv[1:]
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in ids else 'quick'
    ids = [i for i in ids if not i.startswith('--')]
    os.makedirs(CACHE, exist_ok=True)
    t0 = time.time()
    reuse = os.environ.get('MIRX_REUSE')
    if reuse:
        outs = [reuse]
    else:
        with open(CACHE + '/lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            outs = extract_both('%s/mir-%d.json' % (CACHE, os.getpid()))
    out = outs[0]

    def late(*_):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, late)
    rc = 0
    try:
        if len(ids) == 1 and ids[0] != 'all':
            if len(outs) > 1:
                # the same obligations hold of the program with its debug assertions
                r = sh([sys.executable, __file__, ids[0]], env=dict(os.environ, MIRX_REUSE=outs[1]))
                if r.returncode:
                    print('with debug assertions:\n' + r.stdout.rstrip())
                    return r.returncode
            signal.alarm(420)
            return run(ids[0], out, tier)
        allids = [i[:-3].upper() for i in sorted(os.listdir(V + '/props')) if i.startswith('c') and i.endswith('.py')] if ids == ['all'] else ids
        from concurrent.futures import ThreadPoolExecutor

        def one(i):
            for o in outs:
                r = sh([sys.executable, __file__, i], env=dict(os.environ, MIRX_REUSE=o))
                if r.returncode:
                    break
            return i, r
        with ThreadPoolExecutor(6) as ex:
            for i, r in ex.map(one, allids):
                rc |= 1 if r.returncode else 0
                print(r.stdout.rstrip() if r.returncode else r.stdout.strip().split('\n')[-1])
        return rc
    finally:
        if not reuse:
            for o in outs:
                os.unlink(o)


if __name__ == '__main__':
    sys.exit(main())
