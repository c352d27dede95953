#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the harness files present.
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = {}
for f in glob.glob(V + '/harness/**/*.go', recursive=True):
    src = open(f).read()
    for m in re.finditer(r'^func vh(C\d\d)_(\w+)\(', src, re.M):
        claimed.setdefault(m.group(1), []).append(m.group(2))
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': './run.sh %s quick' % i,
            'thorough_cmd': './run.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'solver-based: symbolic execution of the real Go code (go/ssa) with SMT (z3) deciding every branch and assertion within stated bounds; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'bounded: harnesses %s; bounds are in the harness comments, the evidence file and DESIGN.md' % ', '.join(sorted(claimed[i])),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no harness for it yet; see DESIGN.md')})
m = {'version': 1, 'setup_cmd': './run.sh setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', [x['property'] for x in na])
