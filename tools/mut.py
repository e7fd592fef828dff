#!/usr/bin/env python3
"""Development tool: apply small edits to a scratch copy of /repo and show which rules react.

usage: mut.py FILE... [-k substr] [-p props]
Each FILE is a Python file calling M(id, prop, path, old, new) for a breaking edit and R(id, path, old, new) for an
edit that keeps the behaviour (path/old/new may be lists of triples through `edits=`). Needs /tmp/glv built.
"""
import os, subprocess, sys, re, concurrent.futures, shutil, tempfile
args = sys.argv[1:]
sub = None; props = 'all'
if '-k' in args:
    i = args.index('-k'); sub = args[i+1]; del args[i:i+2]
if '-p' in args:
    i = args.index('-p'); props = args[i+1]; del args[i:i+2]
items = []
def M(id, prop, path=None, old=None, new=None, edits=None, cnt=1):
    items.append((id, prop, edits or [(path, old, new)], cnt))
def R(id, path=None, old=None, new=None, edits=None, cnt=1):
    items.append((id, None, edits or [(path, old, new)], cnt))
for f in args:
    exec(compile(open(f).read(), f, 'exec'))
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
def run(it):
    id, prop, edits, cnt = it
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.run(['rsync', '-a', '--exclude', '.git', '/repo/', d + '/'], check=True)
        for path, old, new in edits:
            p = d + '/' + path
            s = open(p).read()
            if s.count(old) < 1 or (cnt == 1 and s.count(old) != 1):
                return id, prop, 'EDIT-FAILED %s (%d matches)' % (path, s.count(old))
            s = s.replace(old, new)
            open(p, 'w').write(s)
        r = subprocess.run([os.environ.get('GLV', '/tmp/glv'), '-repo', d, '-prop', props, '-noev'], capture_output=True, text=True, env=env)
        if r.returncode not in (0, 1):
            return id, prop, 'CRASH ' + (r.stdout + r.stderr)[-600:]
        if '[load]' in r.stdout:
            return id, prop, 'NO-BUILD ' + r.stdout[r.stdout.index('[load]'):][:300]
        out = []
        for l in r.stdout.split('\n'):
            m = re.match(r'^(C\d+): ', l)
            if m: cur = m.group(1)
            m = re.match(r'^  \[(.*?)\] (.*)', l)
            if m: out.append('%s [%s] %s' % (cur, m.group(1), m.group(2)[:150]))
        return id, prop, out
    finally:
        shutil.rmtree(d, ignore_errors=True)
sel = [i for i in items if not sub or sub in i[0] or sub == i[1]]
bad = 0
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for id, prop, out in ex.map(run, sel):
        if isinstance(out, str):
            print('!!', id, prop, out[:400]); bad += 1; continue
        fired = sorted({o.split()[0] for o in out})
        if prop is None:
            ok = not fired
        else:
            ok = prop in fired
        print('ok  ' if ok else 'FAIL', id, prop or 'refactor', fired)
        if not ok or '-v' in sys.argv:
            bad += not ok
            for o in out[:6]: print('       ', o)
print(len(sel), 'edits,', bad, 'unexpected')
