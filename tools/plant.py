#!/usr/bin/env python3
"""Confirms planted changes: python3 tools/plant.py SPEC.py
SPEC.py defines seed(id, prop, edits=[(file, old, new)...], needs=, breaks=, demo=GO_SOURCE, race=False).
Each is tried in a scratch copy of /repo: it must apply, build, keep the baseline tests passing, and the
demonstration must pass on the unchanged tree and fail on the changed one. Only then is
/verif/seeded/<id>/ written."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
           GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:' + ENV['PATH']
S = []
def seed(id, prop, edits, needs, breaks, demo, race=False):
    S.append((id, prop, edits, needs, breaks, demo, race))
src = open(sys.argv[1]).read()
exec(src)
only = sys.argv[2:]
def run(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) else set()
def tests(d):
    rc, out = run('go test -json -vet=off -count=1 -timeout 5m ./...', d)
    ok, bad = set(), set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Test') and e['Action'] in ('pass', 'fail'):
            (ok if e['Action'] == 'pass' else bad).add(e['Package'] + '::' + e['Test'])
    return ok, bad
good = None
for id, prop, edits, needs, breaks, demo, race in S:
    if only and id not in only: continue
    d = '/tmp/w/plant/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/w/plant', exist_ok=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    out = V + '/seeded/' + id
    dd = '/tmp/w/plant/demo_' + id
    shutil.rmtree(dd, ignore_errors=True)
    os.makedirs(dd)
    open(dd + '/main.go.txt', 'w').write(demo.lstrip('\n'))
    open(dd + '/demo.sh', 'w').write(f'''#!/bin/bash
# run with cwd = repository root; exit 0 = property holds in the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
O=$(mktemp) || exit 2
trap 'unlink "$O"' EXIT
printf '{{"Replace":{{"%s/zz_demo/main.go":"%s/main.go.txt"}}}}' "$PWD" "$D" > "$O"
timeout 200 go run {'-race ' if race else ''}-overlay "$O" ./zz_demo
''')
    rc0, o0 = run(f'bash {dd}/demo.sh', d)
    err = None
    if rc0 != 0: err = 'demo fails on unchanged tree: ' + o0[-1500:]
    if good is None:
        good, _ = tests(d)
        print('tests passing on unchanged tree:', len(good))
    for f, a, b in edits:
        t = open(d + '/' + f).read()
        if t.count(a) != 1:
            err = f'{f}: {t.count(a)} matches for {a!r}'; break
        open(d + '/' + f, 'w').write(t.replace(a, b))
    if not err:
        run('gofmt -w ' + ' '.join(sorted({e[0] for e in edits})), d)
        rc, o = run('go build ./... ', d)
        if rc: err = 'build: ' + o[-1500:]
    if not err:
        ok, bad = tests(d)
        if good - ok: err = 'tests fail: ' + str(sorted(good - ok))
    if not err:
        rc1, o1 = run(f'bash {dd}/demo.sh', d)
        if rc1 == 0: err = 'demo passes with the change'
    if err:
        print('REJECTED', id, err)
    else:
        os.makedirs(out, exist_ok=True)
        for f in ('demo.sh', 'main.go.txt'): shutil.copy(dd + '/' + f, out)
        p = subprocess.run(['git', '-C', d, 'diff'], text=True, stdout=subprocess.PIPE).stdout
        open(out + '/patch.diff', 'w').write(p)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
        r, o = run(f'{V}/bin/gostlsa -prop {prop} -repo {d} -verif /tmp/w/plant/v', d)
        print('KEPT', id, prop, 'CAUGHT' if r == 1 else 'missed', '|', o0.strip()[-80:], '|', o1.strip()[-160:].replace('\n', ' / '))
        if r == 1: print('     ', o.strip().splitlines()[1][:200] if len(o.strip().splitlines()) > 1 else o)
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(dd, ignore_errors=True)
