#!/usr/bin/env python3
"""Development tool: make and confirm planted bugs.

usage: seed.py FILE... [-k substr] [-n]     (-n: do not rewrite /verif/seeded, only confirm)
Each FILE calls S(id, prop, pkg, edits, demo, needs, breaks). For each, a scratch copy of /repo is made, the demo must
pass, the edits are applied, the copy must build, keep the stable tests and fail the demo; then patch.diff, demo.sh,
demo.go.txt and meta.json are written to /verif/seeded/<id>. Prints which checks flag it (needs /tmp/glv).
"""
import json, os, subprocess, sys, re, concurrent.futures, shutil, tempfile
args = sys.argv[1:]
sub = None; dry = False; force = False
if '-k' in args:
    i = args.index('-k'); sub = args[i+1]; del args[i:i+2]
if '-n' in args:
    args.remove('-n'); dry = True
seeds = []
def S(id, prop, pkg, edits, demo, needs, breaks):
    seeds.append((id, prop, pkg, edits, demo, needs, breaks))
for f in args:
    exec(compile(open(f).read(), f, 'exec'))
ROOT = '/verif/seeded'
BASE = '/tmp/base'
DEMO = '''#!/bin/bash
# Runs the demonstration test beside this file inside the package %(pkg)s of the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 2
export GODEBUG=cgocheck=0,randautoseed=0
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/tmp"
export TMPDIR=$w/tmp
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$here/demo.go.txt\\"}}" > "$w/overlay.json"
timeout 250 go test -overlay "$w/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestDemo$' "./%(pkg)s"
'''
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('tests', [])))
def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout + r.stderr
def run(s):
    id, prop, pkg, edits, demo, needs, breaks = s
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    repo = d + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        o = d + '/out'; os.mkdir(o)
        open(o + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg))
        open(o + '/demo.go.txt', 'w').write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + '/meta.json', 'w'), indent=1)
        rc, out = sh('bash %s/demo.sh' % o, repo)
        if rc != 0:
            return id, 'DEMO-FAILS-CLEAN ' + out[-1500:]
        for path, old, new in edits:
            p = repo + '/' + path
            t = open(p).read()
            if t.count(old) != 1:
                return id, 'EDIT-FAILED %s (%d matches): %s' % (path, t.count(old), old[:80])
            open(p, 'w').write(t.replace(old, new))
        rc, out = sh('gofmt -l . | grep -v examples; git diff', repo)
        patch = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        open(o + '/patch.diff', 'w').write(patch)
        rc, out = sh('. /opt/vp/env.sh; go build ./...', repo)
        if rc != 0:
            return id, 'NO-BUILD ' + out[-800:]
        # original lines
        warn = ''
        blame = ''
        for path in set(e[0] for e in edits):
            base = open(BASE + '/' + path).read().split('\n')
            fp = subprocess.run(['git', 'diff', '-U0', '--', path], cwd=repo, capture_output=True, text=True).stdout
            rem = [l[1:] for l in fp.split('\n') if l.startswith('-') and not l.startswith('---')]
            own = [l for l in rem if l not in base]
            if own:
                warn += ' OWN-LINES %r' % own[:3]
            if not rem:
                warn += ' NO-REMOVED-LINE'
        rc, out = sh('bash %s/demo.sh' % o, repo)
        if rc == 0:
            return id, 'DEMO-PASSES-PATCHED'
        fail = re.findall(r'(?m)^\s+\S+_test\.go:\d+: .*|^panic:.*|zz_demo.*|fatal error.*', out)
        t = open('/opt/vp/test.sh').read().replace('/repo', repo)
        open(d + '/test.sh', 'w').write(t)
        sh('bash %s/test.sh %s/res.json' % (d, d), repo)
        res = json.load(open(d + '/res.json'))
        passed = set(res.get('passed', [])) if isinstance(res, dict) else set()
        missing = stable - passed
        if missing:
            return id, 'STABLE-FAIL %s' % sorted(missing)[:5]
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
        r = subprocess.run(['/tmp/glv', '-repo', repo, '-prop', 'all', '-noev'], capture_output=True, text=True, env=env)
        hits = sorted(set(re.findall(r'VIOLATION property=(\w+)', r.stdout)))
        if not dry:
            dst = ROOT + '/' + id
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(o, dst)
        return id, '%s %s%s | %s' % ('CAUGHT' if prop in hits else 'MISSED', hits, warn, (fail or [out[-200:]])[0][:160])
    finally:
        shutil.rmtree(d, ignore_errors=True)
todo = [s for s in seeds if not sub or sub in s[0] or sub == s[1]]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for id, r in ex.map(run, todo):
        print(id, r, flush=True)
