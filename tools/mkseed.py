#!/usr/bin/env python3
"""Helper to author seeded changes: mk(id, property, edits, demo, needs, breaks, checks).
Applies the edits in a scratch copy of /repo, checks that it builds, passes the stable
tests, that the demo passes on /repo and fails on the copy, then writes
/verif/seeded/<id>/ and runs the named checks against the copy."""
import json, os, shutil, subprocess, sys, re
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off',
           GOFLAGS='-mod=readonly', CGO_ENABLED='1', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
SH = r'''#!/bin/bash
# Run with cwd /repo: exits 0 when the property holds in the demonstrated case.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
printf '{"Replace": {"%s/pkg/util/zz_demo_test.go": "%s/demo.go.txt"}}' "$PWD" "$here" > "$work/overlay.json"
go test -overlay "$work/overlay.json" -tags sqlite_fts5 -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./pkg/util
'''
HELPER = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo_helper.go.txt')).read()

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def gotests(d):
    r = run(['go', 'test', '-json', '-vet=off', '-count=1', '-tags', 'sqlite_fts5', './cmd/...', './pkg/...'], d)
    fails = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{') and '"Action":"fail"' in l]
    return [(f.get('Package'), f.get('Test')) for f in fails]

def mk(id, prop, edits, demo, needs, breaks, checks=None, sh=None, extra=None):
    scratch = '/tmp/seedwork-' + id
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree('/repo', scratch, symlinks=True)
    try:
        for path, old, new in edits:
            p = os.path.join(scratch, path); s = open(p).read()
            assert s.count(old) == 1, '%s: %d occurrences of %r' % (path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        r = run(['go', 'build', '-tags', 'sqlite_fts5', './...'], scratch)
        if r.returncode: print(id, 'DOES NOT BUILD', r.stderr); return
        subprocess.run('find /tmp -maxdepth 1 -type f \\( -name "test-index*" -o -name "test-stream*" \\) -delete', shell=True)
        f = gotests(scratch)
        if f: print(id, 'FAILS TESTS', f[:5]); return
        out = '/verif/seeded/' + id
        os.makedirs(out, exist_ok=True)
        if sh is None:
            body = demo
            src = 'package util_test\n\n' + HELPER + '\n' + body
            open(out + '/demo.go.txt', 'w').write(src)
        for k, v in (extra or {}).items(): open(out + '/' + k, 'w').write(v)
        open(out + '/demo.sh', 'w').write(sh or SH); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/patch.diff', 'w').write(run(['git', 'diff'], scratch).stdout)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
        a = run(['bash', out + '/demo.sh'], '/repo'); b = run(['bash', out + '/demo.sh'], scratch)
        if a.returncode != 0: print(id, 'DEMO FAILS ON UNCHANGED', (a.stdout + a.stderr)[-1500:]); return
        if b.returncode == 0: print(id, 'DEMO PASSES WITH PATCH'); return
        if 'build failed' in b.stdout: print(id, 'DEMO BUILD FAILED', b.stdout[-800:]); return
        print(id, 'ok; demo:', [l for l in b.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:1])
        for c in (checks or [prop]):
            e = dict(os.environ, VERIF_REPO=scratch, VERIF_DIR='/tmp/seedverif')
            os.makedirs('/tmp/seedverif', exist_ok=True)
            for x in ('bin', 'harness', 'instr', 'sched', 'KNOWN_FINDINGS'):
                if os.path.exists('/verif/' + x) and not os.path.exists('/tmp/seedverif/' + x): os.symlink('/verif/' + x, '/tmp/seedverif/' + x)
            c1 = subprocess.run(['/verif/bin/check', c, 'quick'], capture_output=True, text=True, env=e)
            v = [l for l in c1.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  key:')]
            print('   ', c, 'rc=%d' % c1.returncode, v[:2], c1.stdout.splitlines()[-1][:150] if not v and c1.stdout else c1.stderr[-300:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
