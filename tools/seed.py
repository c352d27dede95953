#!/usr/bin/env python3
# seed.py plant SPEC.py...   writes /verif/seeded/<id> from a spec, after confirming it in a scratch worktree
# seed.py check ID...        applies each seeded patch to a copy of /repo and runs its property's quick check on it
# A spec defines: id, prop, edits=[(path, old, new)], pkg, demo (Go test source with TestSeedDemo), needs, breaks
import json, os, re, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
DEMO = '''#!/bin/bash
# Fails when the planted change is present. Run with cwd = the repository.
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_seed_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
timeout 200 go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, errors='replace', timeout=timeout)
def worktree():
    wt = '/tmp/seedwt'
    sh('git worktree remove --force %s; rm -rf /tmp/seedwt; git worktree prune; git worktree add --detach %s HEAD' % (wt, wt), '/repo')
    return wt
def plant(spec):
    s = {}
    exec(open(spec).read(), s)
    wt = worktree()
    d = V + '/seeded/' + s['id']
    try:
        os.makedirs(d, exist_ok=True)
        open(d + '/demo_test.go', 'w').write(s['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': s['pkg']})
        os.chmod(d + '/demo.sh', 0o755)
        r = sh('bash %s/demo.sh' % d, wt)
        if r.returncode != 0:
            print(s['id'], 'FAIL: demo fails on the unchanged tree\n', r.stdout, r.stderr); return False
        for path, old, new in s['edits']:
            src = open(wt + '/' + path).read()
            if src.count(old) != 1:
                print(s['id'], 'FAIL: %s: %d occurrences of %r' % (path, src.count(old), old)); return False
            open(wt + '/' + path, 'w').write(src.replace(old, new))
        diff = sh('git diff', wt).stdout
        blame_ok = True
        open(d + '/patch.diff', 'w').write(diff)
        r = sh('go build ./... && go test -json -vet=off -count=1 ./... > /tmp/seedwt.json; python3 /opt/vp/results.py /tmp/seedwt.res gojson:/tmp/seedwt.json', wt)
        missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open('/tmp/seedwt.res'))['passed'])
        if missing:
            print(s['id'], 'FAIL: build or tests\n', missing, r.stderr[-2000:]); return False
        r = sh('bash %s/demo.sh' % d, wt)
        if r.returncode == 0:
            print(s['id'], 'FAIL: demo passes with the change'); return False
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], 'planted')
        return True
    finally:
        sh('git worktree remove --force %s' % wt, '/repo')
def check(i, tier='quick'):
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    base = '/tmp/seedcheck-' + i
    sh('rm -rf %s; mkdir -p %s/verif; cp -a /repo %s/repo; cp -a engine harness run.sh KNOWN_FINDINGS.txt properties.jsonl %s/verif/' % (base, base, base, base), V)
    r = sh('git checkout -- . && git apply %s/patch.diff' % d, base + '/repo')
    if r.returncode != 0:
        print(i, 'DOES NOT APPLY', r.stderr); return
    t = time.time()
    r = sh('./run.sh %s %s -repo %s/repo' % (prop, tier, base), base + '/verif', 1000)
    line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    caught = r.returncode == 1 and any('property=' + prop in l for l in line)
    print('%-28s %s rc=%d %5.1fs %s' % (i, prop, r.returncode, time.time() - t, 'CAUGHT' if caught else 'MISSED'), flush=True)
    for l in r.stdout.splitlines():
        if r.returncode not in (0, 1) or 'VIOLATION' in l: print('    ', l[:200])
    shutil.rmtree(base)
    f = V + '/tools/seed_results.json'
    res = json.load(open(f)) if os.path.exists(f) else {}
    res[i] = ('%s (%s)' % (prop, line[0].split('replay=')[-1].split('/')[-1].split('.')[0]) if caught else 'MISSED')
    json.dump(res, open(f, 'w'), indent=1, sort_keys=True)
cmd = sys.argv[1]
if cmd == 'plant':
    for a in sys.argv[2:]: plant(a)
elif cmd == 'check':
    for a in sys.argv[2:] or sorted(os.listdir(V + '/seeded')): check(a)
