#!/usr/bin/env python3
"""runseeds.py [ids] : which checks report which planted change (in scratch copies of /repo)."""
import sys, os, shutil, subprocess, json
W = '/tmp/runseeds'
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
os.makedirs(W, exist_ok=True)
for s in ids:
    d = W + '/' + s
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('target'))
    subprocess.run(['git', 'apply', '/verif/seeded/%s/patch.diff' % s], cwd=d, check=True)
    env = dict(os.environ, BONGO_REPO=d)
    env.pop('MIRX_REUSE', None)
    r = subprocess.run(['python3', '/verif/check.py', 'all'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = sorted({l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
    prop = json.load(open('/verif/seeded/%s/meta.json' % s))['property']
    print('%-26s %s %-7s %s' % (s, prop, 'caught' if prop in v else 'MISSED', ' '.join(v)), flush=True)
    shutil.rmtree(d)
