#!/usr/bin/env python3
"""mkseed.py SPEC.py : make and confirm seeded bugs.

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new[, nth])], file=<module file of the demo>, demo=<rust>, needs, breaks)].
Each seed is confirmed in scratch copies: it applies, builds, passes the stable tests, and its demo separates the trees."""
import sys, os, shutil, subprocess, json
SEEDED = '/verif/seeded'
W = '/tmp/mkseed'
DEMO = '''#!/bin/bash
# run in the repository after its build: the demonstration is an in-crate test module added to a scratch copy
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/seed-demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r src Cargo.toml "$work/" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$work/"
cp "$here/demo.rs" "$work/src/zz_demo.rs"
printf '\\n#[cfg(test)]\\n#[path = "%s"]\\nmod zz_demo;\\n' "$work/src/zz_demo.rs" >> "$work/src/@FILE@"
cd "$work" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${SEED_TARGET:-$work/target}"
timeout 280 cargo test --offline --lib zz_demo -- --test-threads 1 > "$work/log" 2>&1
rc=$?
tail -n 25 "$work/log"
grep -q '^test .*zz_demo' "$work/log" || [ $rc -eq 124 ] || { echo "demo did not run"; [ $rc -eq 0 ] && exit 3; }
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable(d):
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=W + '/target-test')
    r = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], cwd=d, env=env)
    if 'could not compile' in r.stdout:
        return False, r.stdout[-1500:]
    ok = set()
    for l in r.stdout.splitlines():
        if l.startswith('test ') and l.rstrip().endswith('... ok'):
            ok.add(l[5:].rsplit(' ... ', 1)[0].strip())
    miss = []
    for s in base:
        n = s.split('::', 2)[2] if 'src/lib.rs::' in s else s.split('doc:bongo::', 1)[-1].rsplit(' #', 1)[0]
        n = s.split('src/lib.rs::', 1)[1] if 'src/lib.rs::' in s else n
        if not any(n in o for o in ok):
            miss.append(n)
    return not miss, 'failing: %s' % miss


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        out = os.path.join(SEEDED, s['id'])
        d = W + '/w'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('target'))
        bad = None
        for e in s['edits']:
            f, o, n = e[:3]
            p = d + '/src/' + f
            t = open(p).read()
            k = e[3] if len(e) > 3 else 0
            parts = t.split(o)
            if len(parts) < k + 2 or (len(e) < 4 and len(parts) != 2):
                bad = 'text found %d times in %s: %s' % (len(parts) - 1, f, o[:80])
                break
            open(p, 'w').write(o.join(parts[:k + 1]) + n + o.join(parts[k + 1:]))
        if bad:
            print(s['id'], 'FAIL', bad)
            continue
        diff = sh(['git', 'diff', '--', 'src'], cwd=d).stdout
        ok, why = stable(d)
        if not ok:
            print(s['id'], 'FAIL tests', why)
            continue
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(s['sh'] if 'sh' in s else DEMO.replace('@FILE@', s['file']))
        os.chmod(out + '/demo.sh', 0o755)
        if 'demo' in s:
            open(out + '/demo.rs', 'w').write(s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, SEED_TARGET=W + '/target-demo')
        r1 = sh([out + '/demo.sh'], cwd=d, env=env)
        sh(['git', 'checkout', '--', '.'], cwd=d)
        r0 = sh([out + '/demo.sh'], cwd=d, env=env)
        okk = r0.returncode == 0 and r1.returncode != 0
        if not okk:
            print(s['id'], 'FAIL demo: clean rc %d, patched rc %d' % (r0.returncode, r1.returncode))
            print(r0.stdout[-1800:] if r0.returncode else r1.stdout[-800:])
            shutil.rmtree(out)
            continue
        # what do the checks say
        sh(['git', 'apply', out + '/patch.diff'], cwd=d)
        e2 = dict(os.environ, BONGO_REPO=d)
        e2.pop('MIRX_REUSE', None)
        r = sh(['python3', '/verif/check.py', 'all'], env=e2)
        v = sorted({l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
        print(s['id'], 'ok; reported by', v, '' if s['prop'] in v else '  <-- MISSED by ' + s['prop'])
    shutil.rmtree(W + '/w', ignore_errors=True)


main()
