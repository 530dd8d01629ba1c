#!/usr/bin/env python3
"""properties.jsonl + props/*.py -> MANIFEST.json"""
import ast, json, os
V = os.path.dirname(os.path.abspath(__file__))

NA = {
    'C29': 'a bound on running time and memory over all inputs is a quantitative property of runtime values; no static argument in reach bounds the number of Earley items and tree alternatives per position as a polynomial (C28 decides that every loop terminates)',
}
PENDING = 'check not built yet'


def lits(f):
    out = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    f = V + '/props/%s.py' % p['id'].lower()
    if os.path.exists(f) and p['id'] not in NA:
        m = lits(f)
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
            'technique': m.get('TECHNIQUE', 'path-complete dataflow summaries of the MIR, compared with the required value as normal forms'),
            'level': m['LEVEL'],
            'level_note': m.get('NOTE', m['EXPLAIN'] + ' Trusted: MIR construction of rustc nightly, the engine and its models of std functions. A construct the engine cannot summarise is reported as a violation.'),
        })
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], PENDING)})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py C05', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the MIR of /repo as it is. Known and repaired findings: known_findings.json.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
