#!/usr/bin/env python3
"""mkbug.py SPEC.py...: make and confirm seeded bugs.

A spec defines id, prop, needs, breaks, edits=[(file, old, new)...] and demo
(a Go test body in package sign, or demo_sh: a shell script). The bug is kept
under seeded/<id> only if it builds, passes the tests, and its demo passes on
the unchanged tree and fails with the change.
"""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
printf '{"Replace":{"%s/sign/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
timeout 250 go test -vet=off -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 ./sign
'''

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(spec):
    g = {}
    exec(open(spec).read(), g)
    d = '/tmp/bugs/' + g['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/bugs', exist_ok=True)
    run(['cp', '-a', '/repo', d], '/')
    out = tempfile.mkdtemp(prefix='seed')
    if 'demo_sh' in g:
        open(out + '/demo.sh', 'w').write(g['demo_sh'])
    else:
        open(out + '/demo.sh', 'w').write(GO)
        open(out + '/demo_test.go', 'w').write(g['demo'])
    for n, t in g.get('files', {}).items():
        open(out + '/' + n, 'w').write(t)
    os.chmod(out + '/demo.sh', 0o755)
    b = run(['go', 'build', '-o', d + '/bin/linux-amd64/sigtool', './src'], d)
    r = run([out + '/demo.sh'], d, timeout=300)
    if r.returncode != 0:
        print(g['id'], 'DEMO FAILS ON CLEAN', r.stdout[-1500:]); return
    for f, o, n in g['edits']:
        p = d + '/' + f
        s = open(p).read()
        if s.count(o) != 1:
            print(g['id'], 'EDIT matches', s.count(o), repr(o[:60])); return
        open(p, 'w').write(s.replace(o, n))
    diff = run(['git', 'diff'], d).stdout
    open(out + '/patch.diff', 'w').write(diff)
    b = run(['go', 'vet', './...'], d)
    b = run(['go', 'build', './...'], d)
    if b.returncode:
        print(g['id'], 'NO BUILD', b.stdout[-800:]); return
    b = run(['go', 'build', '-trimpath', '-buildvcs=false', '-o', d + '/bin/linux-amd64/sigtool', './src'], d)
    if b.returncode:
        print(g['id'], 'NO BUILD', b.stdout[-800:]); return
    if not os.environ.get('NOTEST'):
        t = run(['go', 'test', '-vet=off', '-count=1', './...'], d)
        if t.returncode:
            print(g['id'], 'TESTS FAIL', t.stdout[-800:]); return
        t = run(['bash', './tests.sh', 'bin=' + d + '/bin/linux-amd64/sigtool', 'tmpdir=' + tempfile.mkdtemp()], d, stdin=subprocess.DEVNULL)
        if t.returncode:
            print(g['id'], 'tests.sh FAILS', t.stdout[-800:]); return
    r = run([out + '/demo.sh'], d, timeout=300)
    if r.returncode == 0:
        print(g['id'], 'DEMO PASSES WITH BUG'); return
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    dst = V + '/seeded/' + g['id']
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    print(g['id'], 'OK', r.stdout.strip().split('\n')[0][:150])

for s in sys.argv[1:]:
    try:
        one(s)
    except Exception as e:
        print(s, 'ERR', e)
