#!/usr/bin/env python3
# mutate.py N SEED [FILE-PREFIX]   development aid: tries N random small mutations of the repository in scratch
# copies, and runs the checks of the properties concerned against those which build and pass the tests.
# Results in /tmp/mut/results.jsonl.
import json, os, subprocess, sys, random, shutil, time, fcntl
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, '', 'timeout')
def props(path, fn):
    p = path
    if p.startswith('mask/'): return ['C04', 'C05', 'C06'] if 'raster' not in p else ['C05', 'C04', 'C06']
    if p == 'internal/circular_buffer.go': return ['C21']
    if p == 'internal/helpers.go': return ['C22', 'C23', 'C20', 'C24', 'C02']
    if p == 'internal/parsing_buffer.go': return ['C23', 'C26', 'C01'] if 'Name' in fn else ['C26', 'C01', 'C02']
    if p.startswith('internal/rerules/glyphrule/'): return {'rule_scanner.go': ['C15', 'C17'], 'decision_tree_state.go': ['C16', 'C29', 'C17'], 'decision_tree_compiler.go': ['C29', 'C17']}.get(os.path.basename(p), ['C17', 'C16', 'C15'])
    if p.startswith('internal/rerules/utf8rule/'): return {'rule_scanner.go': ['C15', 'C18'], 'decision_tree_state.go': ['C16', 'C29', 'C18'], 'decision_tree_compiler.go': ['C29', 'C18']}.get(os.path.basename(p), ['C18', 'C16', 'C15'])
    if p == 'settings_cache.go': return ['C12', 'C11', 'C13']
    if p == 'mapping_cache.go': return ['C11']
    if p == 'date.go': return ['C20', 'C24']
    if p == 'words.go': return ['C09']
    if p == 'parse.go': return ['C01', 'C26', 'C02']
    if p == 'font.go':
        for k, v in [('FontHeader', ['C03', 'C24', 'C02', 'C01']), ('FontMetrics', ['C24', 'C03']), ('FontColor', ['C07', 'C01']), ('FontGlyphs', ['C27', 'C08', 'C24']), ('bytes', ['C08']), ('FontSettings', ['C09', 'C02']), ('FontMapping', ['C10', 'C11']), ('GlyphMappingGroup', ['C10', 'C11']),
                     ('Rewrites.Eval', ['C13']), ('ConditionSub', ['C13']), ('Rewrite', ['C14', 'C17', 'C18']), ('Kerning', ['C19'])]:
            if k in fn: return v
        return ['C02', 'C26']
    if p.startswith('builder/'):
        b = os.path.basename(p)
        if 'color' in b: return ['C07', 'C25', 'C02']
        if 'mapping' in b: return ['C10', 'C30', 'C25', 'C02']
        if 'props' in b: return ['C03', 'C24', 'C20', 'C02']
        if 'condition' in b: return ['C13']
        if 'rewrite_rules' in b or 'sets' in b: return ['C14', 'C25', 'C02']
        if 'settings' in b: return ['C09', 'C25', 'C02', 'C23']
        if 'Edition' in fn: return ['C28']
        if 'Kerning' in fn: return ['C19', 'C25']
        if 'Name' in fn: return ['C08', 'C23', 'C25']
        return ['C27', 'C25', 'C02', 'C08', 'C19', 'C28', 'C03', 'C24', 'C09', 'C10', 'C14', 'C07']
    return ['C02']
def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    pref = sys.argv[3] if len(sys.argv) > 3 else ''
    base = '/tmp/mut/%d' % seed
    subprocess.run('rm -rf %s; mkdir -p %s; cp -a /repo %s/repo; mkdir %s/verif; cp -a %s/engine %s/harness %s/run.sh %s/KNOWN_FINDINGS.txt %s/properties.jsonl %s/verif/' % (base, base, base, base, V, V, V, V, V, base), shell=True, check=True)
    repo = base + '/repo'
    files = [f for f in sh("git ls-files '*.go' | grep -v _test.go | grep -v 'outline_builder\|rewrite_condition.go'", repo).stdout.split() if f.startswith(pref)]
    lines = sh('go run -C %s/tools/mutgen . %s' % (V, ' '.join(repo + '/' + f for f in files)), repo).stdout.splitlines()
    byfile = {}
    for l in lines:
        a = l.split('\t'); a[0] = a[0][len(repo) + 1:]
        if a[3] in ('trace',) or 'outline' in a[3].lower() or 'ToString' in a[3] or 'String' in a[3].split('.')[-1] or 'ExportEdition' in a[3] or a[3].startswith('compileRewriteCond'): continue
        byfile.setdefault(a[0], []).append(a)
    rnd = random.Random(seed)
    todo = []
    # weight files by the square root of their number of mutants
    names = sorted(byfile)
    w = [len(byfile[f]) ** 0.5 for f in names]
    while len(todo) < n:
        f = rnd.choices(names, w)[0]
        todo.append(rnd.choice(byfile[f]))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for path, a, b, fn, repl in todo:
        full = repo + '/' + path
        src = open(full, 'rb').read()
        a, b = int(a), int(b); repl = json.loads(repl) if repl.startswith('"') else repl
        open(full, 'wb').write(src[:a] + repl.encode() + src[b:])
        rec = {'file': path, 'line': src[:a].count(b'\n') + 1, 'fn': fn, 'old': src[a:b].decode(), 'new': repl, 'src': src.splitlines()[src[:a].count(b'\n')].decode().strip()}
        t0 = time.time()
        try:
            r = sh('go build ./... && timeout 100 go test -json -vet=off -count=1 ./... > %s/t.json; python3 /opt/vp/results.py %s/t.res gojson:%s/t.json' % (base, base, base), repo)
            try: missing = stable - set(json.load(open(base + '/t.res'))['passed'])
            except Exception: missing = {'x'}
            if 'rror' in r.stderr or missing or os.path.getsize(base + '/t.json') == 0:
                rec['result'] = 'tests'
                continue
            rec['result'] = 'SURVIVED'
            rec['ran'] = []
            for p in props(path, fn):
                r = sh('./run.sh %s quick -repo %s -workers 4 -budget 200' % (p, repo), base + '/verif')
                rec['ran'].append((p, r.returncode))
                if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
                    rec['result'] = 'caught ' + p; break
                if r.returncode != 0:
                    rec['result'] = 'broken %s %d' % (p, r.returncode); rec['out'] = (r.stdout + r.stderr)[-600:]
                    break
        finally:
            open(full, 'wb').write(src)
            rec['t'] = round(time.time() - t0)
            with open('/tmp/mut/results.jsonl', 'a') as f: f.write(json.dumps(rec) + '\n')
    shutil.rmtree(base)
main()
