#!/usr/bin/env python3
# gendesign.py   rewrites the generated end of DESIGN.md: planted bugs (what catches them) and the bounds of all harnesses
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
s = s[:s.index('## Planted bugs')]
out = ['## Planted bugs', '', 'Each is in `seeded/<id>/`. Last result of `tools/seed.py check` (quick tier):', '', '| id | property | needs | caught by |', '|---|---|---|---|']
try: res = json.load(open(V + '/tools/seed_results.json'))
except Exception: res = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, 'not run')))
mut = V + '/tools/mutation_notes.md'
if os.path.exists(mut): out += ['', open(mut).read().rstrip()]
out += ['', '## Harnesses and their bounds', '', 'From the comments of the harnesses, which also go into the evidence.', '']
items = {}
for f in sorted(glob.glob(V + '/harness/**/c*.go', recursive=True)):
    doc = []
    for l in open(f):
        if l.startswith('//verif:'): continue
        if l.startswith('//'): doc.append(l[2:].strip())
        else:
            m = re.match(r'func (vh(C\d\d)_\w+)', l)
            if m: items.setdefault(m.group(2), []).append((os.path.dirname(f)[len(V) + 9:], m.group(1), ' '.join(doc).strip()))
            doc = []
for p in sorted(items):
    out.append('- **%s**' % p)
    for d, n, t in items[p]:
        out.append('  - `%s` (%s): %s' % (n, d, t))
open(V + '/DESIGN.md', 'w').write(s + '\n'.join(out) + '\n')
