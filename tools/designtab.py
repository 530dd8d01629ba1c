"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json and the output of tools/runseeds.py (argument)."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
who = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+)\s+(C\d+)\s+(caught|MISSED)\s*(.*)', l)
    if m:
        who[m.group(1)] = (m.group(2), m.group(3), m.group(4))
out = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    j = json.load(open(R + '/seeded/%s/meta.json' % d))
    w = who.get(d)
    out.append('| %s | %s | %s | %s |' % (d, j['property'], j['needs'], ' '.join(w[2].split()) if w else '(not run)'))
p = R + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(out) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
