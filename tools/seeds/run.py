#!/usr/bin/env python3
"""Generate and confirm the planted bugs of /verif/seeded.

  run.py gen [ID...]     write seeded/<id>/ from the specs beside this file
  run.py demo [ID...]    confirm: builds, stable tests of the package pass with the patch,
                         demo exits 0 clean and nonzero patched
  run.py check [ID...]   run the property's check against a patched scratch copy
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(ROOT, 'seeded'); REPO = '/repo'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off',
           GOWORK='off', GOENV='off', GOSUMDB='off', GOFLAGS='-mod=mod', HOME='/root')

DEMO = '''#!/bin/bash
# Runs %(why)s against the tree in the working directory:
# exit 0 if the guarantee holds there, nonzero if it is broken.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GOSUMDB=off GOFLAGS=-mod=mod GONOSUMDB='*'
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
cp "$R/go.mod" "$T/go.mod" && chmod u+w "$T/go.mod"
cp /opt/vp/gofer.sum "$T/go.sum" 2>/dev/null || cp "$R/go.sum" "$T/go.sum" 2>/dev/null
printf '{"Replace": {"%%s": "%%s"}}\\n' "$R/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
export TMPDIR=$T
timeout 280 go test -modfile="$T/go.mod" -overlay "$T/overlay.json" -vet=off -count=1 -timeout 240s %(flags)s -run '^TestDemo' ./%(pkg)s
'''

def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 's_*.py'))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out

def scratch():
    d = tempfile.mkdtemp(prefix='seed.')
    subprocess.check_call('git -C %s archive HEAD | tar x -C %s' % (REPO, d), shell=True)
    subprocess.check_call('git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x', shell=True, cwd=d)
    return d

def orig_lines(path):
    base = subprocess.check_output(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    o = subprocess.check_output(['git', '-C', REPO, 'blame', '--porcelain', 'HEAD', '--', path], text=True)
    res = set(); cur = None
    for l in o.splitlines():
        p = l.split(' ')
        if l.startswith('\t'): continue
        if len(p[0]) == 40 and len(p) >= 3 and p[2].isdigit():
            if p[0] == base: res.add(int(p[2]))
    return res

def gen(s):
    d = scratch()
    try:
        orig = 0; removed = 0
        for path, old, new in s['edits']:
            fp = os.path.join(d, path); t = open(fp).read()
            if t.count(old) != 1: raise SystemExit('%s: %d matches in %s for:\n%s' % (s['id'], t.count(old), path, old))
            open(fp, 'w').write(t.replace(old, new))
        subprocess.check_call('go version >/dev/null', shell=True, env=ENV)
        for path in {e[0] for e in s['edits']}:
            subprocess.check_call(['/opt/veriftools/go1.27.3/bin/gofmt', '-l', path], cwd=d, stdout=subprocess.DEVNULL)
            ol = orig_lines(path); n = 0
            for l in subprocess.check_output(['git', 'diff', '-U0', path], cwd=d, text=True).splitlines():
                if l.startswith('@@'):
                    a = l.split(' ')[1][1:].split(','); n = int(a[0])
                elif l.startswith('-') and not l.startswith('---'):
                    removed += 1; orig += n in ol
                    if n not in ol: print('  note %s: %s:%d is not an original line' % (s['id'], path, n))
                    n += 1
        if not orig: raise SystemExit('%s changes no original line' % s['id'])
        out = os.path.join(SEEDED, s['id']); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        diff = subprocess.check_output(['git', 'diff'], cwd=d, text=True)
        diff = '\n'.join(l for l in diff.split('\n') if not l.startswith('index '))
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo_test.go', 'w').write(s['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO % dict(why='demo_test.go', pkg=s['pkg'], flags=s.get('flags', '')))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
    finally: shutil.rmtree(d)

def demo(s):
    d = scratch(); sd = tempfile.mkdtemp(prefix='seeddemo.'); msgs = []
    try:
        for f in ('demo.sh', 'demo_test.go'): shutil.copy(os.path.join(SEEDED, s['id'], f), sd)
        def run(): return subprocess.run(['bash', sd + '/demo.sh'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for i in range(2):
            r = run()
            if r.returncode != 0: msgs.append('DEMO FAILS CLEAN: ' + r.stdout[-1500:]); break
        subprocess.check_call(['git', 'apply', os.path.join(SEEDED, s['id'], 'patch.diff')], cwd=d)
        for i in range(3):
            r = run()
            if r.returncode == 0: msgs.append('DEMO PASSES PATCHED (run %d)' % i); break
            if 'build failed' in r.stdout or 'setup failed' in r.stdout: msgs.append('BUILD FAILED: ' + r.stdout[-1500:]); break
        last = r.stdout
        t = tempfile.mkdtemp(prefix='seedt.')
        shutil.copy(d + '/go.mod', t); shutil.copy('/opt/vp/gofer.sum', t + '/go.sum')
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        pk = sorted({'./' + x.split('gofer/')[1].rsplit('/', 1)[0] for x in stable}); names = '^(' + '|'.join(x.rsplit('/', 1)[1] for x in stable if not x.endswith('Test_treeMap2')) + ')$'
        b = subprocess.run(['go', 'test', '-modfile', t + '/go.mod', '-vet=off', '-count=1', '-run', names] + pk, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode: msgs.append('TESTS FAIL: ' + b.stdout[-1500:])
        b = subprocess.run(['go', 'build', '-modfile', t + '/go.mod', './' + s['pkg']], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode: msgs.append('vet: ' + b.stdout[-600:])
        shutil.rmtree(t)
        return s['id'], msgs, [l for l in last.splitlines() if 'Demo' in l or 'zz_demo' in l or 'DATA RACE' in l or 'fatal' in l or 'panic' in l][:4]
    finally: shutil.rmtree(d); shutil.rmtree(sd)

def check(s):
    d = scratch()
    try:
        subprocess.check_call(['git', 'apply', os.path.join(SEEDED, s['id'], 'patch.diff')], cwd=d)
        r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), s['property']], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % s['property'])]
        return s['id'], s['property'], r.returncode, bool(v), r.stdout[-400:]
    finally: shutil.rmtree(d)

if __name__ == '__main__':
    sp = specs(); ids = sys.argv[2:] or list(sp); bad = 0
    if sys.argv[1] == 'gen':
        for i in ids: gen(sp[i]); print('gen', i)
    elif sys.argv[1] == 'demo':
        with cf.ThreadPoolExecutor(3) as ex:
            for i, m, l in ex.map(demo, [sp[i] for i in ids]):
                print(('ok   ' if not m else 'BAD  ') + i, l, *m, sep='\n      ', flush=True); bad += bool(m)
    elif sys.argv[1] == 'check':
        rf = os.path.join(HERE, 'results.json'); res = json.load(open(rf)) if os.path.exists(rf) else {}
        with cf.ThreadPoolExecutor(2) as ex:
            for i, p, rc, v, tail in ex.map(check, [sp[i] for i in ids]):
                ok = rc == 1 and v; res[i] = [p, ok]
                print('caught' if ok else 'MISSED rc=%d' % rc, i, p, flush=True)
                if not ok: print(tail); bad += 1
        res = {k: v for k, v in res.items() if k in sp}
        json.dump(dict(sorted(res.items())), open(rf, 'w'), indent=0)
        dp = os.path.join(ROOT, 'DESIGN.md'); t = open(dp).read(); A, B = '<!-- seeds:begin -->', '<!-- seeds:end -->'
        rows = ''.join('| %s | %s | %s |\n' % (k, p, 'yes' if ok else '**no**') for k, (p, ok) in sorted(res.items(), key=lambda x: (x[1][0], x[0])))
        t = t[:t.index(A) + len(A)] + '\n| planted bug | property | caught |\n|---|---|---|\n' + rows + t[t.index(B):]
        open(dp, 'w').write(t)
    sys.exit(bool(bad))
