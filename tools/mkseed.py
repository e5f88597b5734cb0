#!/usr/bin/env python3
"""Makes planted changes: mkseed.py DEFS.py [id...]

DEFS.py calls S(id, prop, edits, demo, pkg=..., needs=..., breaks=...) with
edits = [(file, old, new)...] and demo the body of a Go test file (without the
package clause) for the package directory pkg.  A change is kept in
/verif/seeded/<id> once it builds, passes the stable tests, changes original
lines only, and its demo tells the trees apart."""
import json, os, re, shutil, subprocess, sys, tempfile
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0')
DEMO = r'''#!/bin/bash
# Runs demo.go.txt as a test of %(pkg)s.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=%(cgo)s
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\"Replace\": {\"$PWD/%(dir)szz_demo_test.go\": \"$d/demo.go.txt\"}}" > "$t/overlay.json"
TMPDIR="$t" go test %(race)s-overlay "$t/overlay.json" -vet=off -count=1 -timeout 100s -run '^TestDemo$' %(pkg)s
'''
seeds = []


def S(id, prop, edits, demo, pkg='./parser', needs='', breaks='', race=False):
    seeds.append(dict(id=id, prop=prop, edits=edits, demo=demo, pkg=pkg, needs=needs, breaks=breaks, race=race))


def sh(cmd, cwd, timeout=280):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def tests(cwd):
    rc, out = sh('go test -json -vet=off -count=1 -timeout 3m ./...', cwd)
    passed = set()
    for line in out.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            passed.add((e['Package'], e['Test']))
    return passed


def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), dict(S=S))
    only = set(sys.argv[2:])
    tmp = tempfile.mkdtemp(prefix='seed.')
    repo = tmp + '/repo'
    shutil.copytree('/repo', repo)
    want = tests(repo)
    base = subprocess.check_output('git log --format=%h --reverse | head -1', shell=True, cwd=repo).decode().strip()
    try:
        for s in seeds:
            if only and s['id'] not in only:
                continue
            why = make(s, repo, want, base)
            print('%-28s %s' % (s['id'], why or 'kept'), flush=True)
            sh('git checkout -q -- .', repo)
    finally:
        shutil.rmtree(tmp)


def make(s, repo, want, base):
    d = '/verif/seeded/' + s['id']
    for f, old, new in s['edits']:
        p = repo + '/' + f
        t = open(p).read()
        if t.count(old) != 1:
            return 'edit matches %d times: %s' % (t.count(old), old[:50])
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', 'diff', '--no-color'], cwd=repo).decode()
    # changed lines must be original ones
    note = ''
    for f in sorted(set(e[0] for e in s['edits'])):
        h = subprocess.check_output(['git', 'diff', '-U0', '--no-color', f], cwd=repo).decode()
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+', h, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            r = '%d,+%d' % (a, n) if n else '%d,+2' % max(1, a)
            for l in subprocess.check_output(['git', 'blame', '-s', 'HEAD', '-L', r, '--', f], cwd=repo).decode().splitlines():
                if not l.startswith('^'):
                    note = ' (touches fix line: %s)' % l
    if note:
        return 'REJECTED' + note
    sh('gofmt -l .', repo)
    rc, out = sh('go build ./...', repo)
    if rc:
        return 'does not build: ' + out[:300]
    missing = want - tests(repo)
    if missing:
        return 'tests fail: %s' % sorted(missing)[:3]
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    pk = s['pkg']
    dirn = '' if pk == '.' else pk[2:] + '/'
    name = {'.': 'bibtex', './parser': 'parser', './scanner': 'scanner', './ast': 'ast', './render': 'render'}[pk] + '_test'
    open(d + '/demo.go.txt', 'w').write('package %s\n\n%s' % (name, s['demo'].lstrip('\n')))
    open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pk, dir=dirn, race='-race ' if s['race'] else '', cgo='1' if s['race'] else '0'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    rc1, out1 = sh(['bash', d + '/demo.sh'], repo)
    sh('git stash -q', repo)
    rc0, out0 = sh(['bash', d + '/demo.sh'], repo)
    sh('git stash drop -q', repo)
    if rc0 or not rc1 or 'build failed' in out1 or 'setup failed' in out1:
        shutil.rmtree(d)
        return 'demo: clean %d patched %d\n%s\n---\n%s' % (rc0, rc1, out0[-800:], out1[-800:])
    return None


main()
