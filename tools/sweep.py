#!/usr/bin/env python3
"""sweep.py [FILE-substring..]: small changes to every line of the library's source, one at a time; those that compile
and pass the tests go through all checks; prints what no check reports.  Works on copies under /tmp."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('SWEEP_OUT', V + '/.cache/sweep.jsonl')
W = int(os.environ.get('SWEEP_WORKERS', '4'))
SUBS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|(?= )', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'-=', '+='),
        (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'),
        (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().take(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\.into_iter\(\)', '.into_iter().skip(1)'), (r'\.into_iter\(\)', '.into_iter().take(1)'), (r'\.into_iter\(\)', '.into_iter().rev()'),
        (r'\.chars\(\)', '.chars().rev()'), (r'\.collect\(\)', '.take(1).collect()'), (r'\.collect::', '.take(1).collect::'), (r'\.collect\(\)', '.skip(1).collect()'), (r'\.collect::', '.skip(1).collect::'),
        (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'WasChanged::Changed', 'WasChanged::Unchanged'), (r'WasChanged::Unchanged', 'WasChanged::Changed'),
        (r'Ordering::Less', 'Ordering::Greater'), (r'Ordering::Greater', 'Ordering::Less'), (r'Ordering::Equal', 'Ordering::Less'), (r'\bself\.', 'other.'), (r'\bother\.', 'self.'), (r'\.max\(', '.min('), (r'\.min\(', '.max('),
        (r'Some\([^()]*\)$', 'None'), (r'!(?=[a-z])(?!\[)', ''), (r'(?<=if )(?=[a-z])', '!'), (r'\.filter\((?=\|)', '.take(1).filter('), (r'\.map\((?=\|)', '.take(1).map('), (r'\.map\((?=\|)', '.skip(1).map('),
        (r'\.flat_map\((?=\|)', '.take(1).flat_map('), (r'\.next\(\)', '.last()'), (r'\.len\(\)', '.len().saturating_sub(1)'), (r'\.len\(\)', '.len() + 1'), (r'\.insert\(', '.remove('), (r'\.contains_key\(', '.is_empty() || !x.contains_key('),
        (r'\.is_empty\(\)', '.len() == 1'), (r'\bif ', 'if false && '), (r'\bif (?!let)', 'if true || '), (r'\.as_term\(', '.as_nonterm('), (r'\.as_nonterm\(', '.as_term('), (r'\.push\(', '.insert(0, '), (r'\.keys\(\)', '.keys().skip(1)'),
        (r'\.values\(\)', '.values().skip(1)'), (r'\.or_insert_with\(', '.and_modify(|_| ()).or_insert_with('), (r'\.unwrap_or\(', '.xor(Some(x)).unwrap_or('), (r'\.start\b', '.end'), (r'\.end\b', '.start'), (r'\.and_then\(', '.xor(None).and_then(')]
lock = threading.Lock()


def mutants(files):
    for f in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)):
        rel = f[len('/repo/'):]
        if files and not any(x in rel for x in files):
            continue
        lines = open(f).read().split('\n')
        test = False
        for i, l in enumerate(lines):
            if l.startswith('#[cfg(test)]'):
                break
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or re.match(r'^(pub )?(fn|struct|enum|impl|trait|mod|type)\b', s):
                continue
            seen = set()
            for pat, rep in SUBS:
                for m in re.finditer(pat, l):
                    n = l[:m.start()] + rep + l[m.end():]
                    if n != l and n not in seen:
                        seen.add(n)
                        yield rel, i, l, n
            if s.endswith(';') and not s.startswith(('let ', '}', ')', ']', 'type ', 'return')) and '(' in s:
                yield rel, i, l, ''
            if s.startswith('return') and s.endswith(';'):
                yield rel, i, l, ''
            if re.match(r'^\.\w+\(.*\)$', s):      # one step of a chain
                yield rel, i, l, ''


def one(args):
    w, (rel, i, old, new) = args
    d = '/tmp/sweep/%d' % w
    p = d + '/' + rel
    src = open('/repo/' + rel).read().split('\n')
    assert src[i] == old
    src[i] = new
    open(p, 'w').write('\n'.join(src))
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=d + '/target', CARGO_NET_OFFLINE='true')
        r = subprocess.run(['cargo', 'test', '--offline', '--no-run'], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode:
            return 'compile', ''
        try:
            r = subprocess.run(['cargo', 'test', '--offline'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return 'tests', 'time'
        if r.returncode:
            return 'tests', ''
        env = dict(os.environ, BONGO_REPO=d)
        env.pop('MIRX_REUSE', None)
        r = subprocess.run([sys.executable, V + '/check.py', 'all'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ids = re.findall(r'VIOLATION property=(\w+)', r.stdout)
        return ('caught' if ids else 'SURVIVED' if r.returncode == 0 else 'error'), ' '.join(ids) if ids else r.stdout[-300:] if r.returncode else ''
    finally:
        shutil.copy('/repo/' + rel, p)


def main():
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            e = json.loads(l)
            done.add((e['file'], e['old'], e['new'], e['nth']))
    todo, cnt = [], {}
    for m in mutants(sys.argv[1:]):
        k = (m[0], m[2], m[3])
        cnt.setdefault(k, []).append(m[1])
        n = len(cnt[k])
        if k + (n,) not in done:
            todo.append((m, n))
    print(len(todo), 'changes', flush=True)
    shutil.rmtree('/tmp/sweep', ignore_errors=True)
    for w in range(W):
        shutil.copytree('/repo', '/tmp/sweep/%d' % w, ignore=shutil.ignore_patterns('.git'))
    free = list(range(W))

    def go(t):
        m, n = t
        with lock:
            w = free.pop()
        try:
            r, why = one((w, m))
        finally:
            with lock:
                free.append(w)
        with lock:
            with open(OUT, 'a') as f:
                f.write(json.dumps({'file': m[0], 'line': m[1] + 1, 'old': m[2], 'new': m[3], 'nth': n, 'result': r, 'by': why}) + '\n')
            if r in ('SURVIVED', 'error'):
                print(r, '%s:%d' % (m[0], m[1] + 1), '\n   ', m[2].strip(), '\n   ', m[3].strip(), why[:200], flush=True)
    with cf.ThreadPoolExecutor(W) as ex:
        list(ex.map(go, todo))
    shutil.rmtree('/tmp/sweep', ignore_errors=True)


main()
